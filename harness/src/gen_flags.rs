// Generated by tools/gen_flags.py; do not edit.
#![allow(non_snake_case, clippy::all)]
use crate::sx;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;

fn f_Face3D() {
    { let mut x = Face3D::default();
      let r_edge_flags = sx::i32(); x.edge_flags = r_edge_flags;
      let b = sx::bool_();
      sx::check(x.is_first_edge_invisible() == (r_edge_flags & 1 != 0), "Face3D.is_first_edge_invisible: getter does not reflect the stored bit");
      x.set_is_first_edge_invisible(b);
      sx::check(x.is_first_edge_invisible() == b, "Face3D.is_first_edge_invisible: getter does not return what was set");
      sx::check(x.edge_flags == if b { r_edge_flags | 1 } else { r_edge_flags & !1 }, "Face3D.is_first_edge_invisible: setter changes other bits");
      sx::check(x.is_second_edge_invisible() == (r_edge_flags & 2 != 0), "Face3D.is_first_edge_invisible: setter changes is_second_edge_invisible");
      sx::check(x.is_third_edge_invisible() == (r_edge_flags & 4 != 0), "Face3D.is_first_edge_invisible: setter changes is_third_edge_invisible");
      sx::check(x.is_fourth_edge_invisible() == (r_edge_flags & 8 != 0), "Face3D.is_first_edge_invisible: setter changes is_fourth_edge_invisible");
    }
    { let mut x = Face3D::default();
      let r_edge_flags = sx::i32(); x.edge_flags = r_edge_flags;
      let b = sx::bool_();
      sx::check(x.is_second_edge_invisible() == (r_edge_flags & 2 != 0), "Face3D.is_second_edge_invisible: getter does not reflect the stored bit");
      x.set_is_second_edge_invisible(b);
      sx::check(x.is_second_edge_invisible() == b, "Face3D.is_second_edge_invisible: getter does not return what was set");
      sx::check(x.edge_flags == if b { r_edge_flags | 2 } else { r_edge_flags & !2 }, "Face3D.is_second_edge_invisible: setter changes other bits");
      sx::check(x.is_first_edge_invisible() == (r_edge_flags & 1 != 0), "Face3D.is_second_edge_invisible: setter changes is_first_edge_invisible");
      sx::check(x.is_third_edge_invisible() == (r_edge_flags & 4 != 0), "Face3D.is_second_edge_invisible: setter changes is_third_edge_invisible");
      sx::check(x.is_fourth_edge_invisible() == (r_edge_flags & 8 != 0), "Face3D.is_second_edge_invisible: setter changes is_fourth_edge_invisible");
    }
    { let mut x = Face3D::default();
      let r_edge_flags = sx::i32(); x.edge_flags = r_edge_flags;
      let b = sx::bool_();
      sx::check(x.is_third_edge_invisible() == (r_edge_flags & 4 != 0), "Face3D.is_third_edge_invisible: getter does not reflect the stored bit");
      x.set_is_third_edge_invisible(b);
      sx::check(x.is_third_edge_invisible() == b, "Face3D.is_third_edge_invisible: getter does not return what was set");
      sx::check(x.edge_flags == if b { r_edge_flags | 4 } else { r_edge_flags & !4 }, "Face3D.is_third_edge_invisible: setter changes other bits");
      sx::check(x.is_first_edge_invisible() == (r_edge_flags & 1 != 0), "Face3D.is_third_edge_invisible: setter changes is_first_edge_invisible");
      sx::check(x.is_second_edge_invisible() == (r_edge_flags & 2 != 0), "Face3D.is_third_edge_invisible: setter changes is_second_edge_invisible");
      sx::check(x.is_fourth_edge_invisible() == (r_edge_flags & 8 != 0), "Face3D.is_third_edge_invisible: setter changes is_fourth_edge_invisible");
    }
    { let mut x = Face3D::default();
      let r_edge_flags = sx::i32(); x.edge_flags = r_edge_flags;
      let b = sx::bool_();
      sx::check(x.is_fourth_edge_invisible() == (r_edge_flags & 8 != 0), "Face3D.is_fourth_edge_invisible: getter does not reflect the stored bit");
      x.set_is_fourth_edge_invisible(b);
      sx::check(x.is_fourth_edge_invisible() == b, "Face3D.is_fourth_edge_invisible: getter does not return what was set");
      sx::check(x.edge_flags == if b { r_edge_flags | 8 } else { r_edge_flags & !8 }, "Face3D.is_fourth_edge_invisible: setter changes other bits");
      sx::check(x.is_first_edge_invisible() == (r_edge_flags & 1 != 0), "Face3D.is_fourth_edge_invisible: setter changes is_first_edge_invisible");
      sx::check(x.is_second_edge_invisible() == (r_edge_flags & 2 != 0), "Face3D.is_fourth_edge_invisible: setter changes is_second_edge_invisible");
      sx::check(x.is_third_edge_invisible() == (r_edge_flags & 4 != 0), "Face3D.is_fourth_edge_invisible: setter changes is_third_edge_invisible");
    }
}
fn f_AttributeDefinition() {
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_text_backwards: getter does not reflect the stored bit");
      x.set_is_text_backwards(b);
      sx::check(x.is_text_backwards() == b, "AttributeDefinition.is_text_backwards: getter does not return what was set");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 2 } else { r_text_generation_flags & !2 }, "AttributeDefinition.is_text_backwards: setter changes other bits");
      sx::check(x.flags == r_flags, "AttributeDefinition.is_text_backwards: setter changes other bits");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_text_backwards: setter changes is_text_upside_down");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_text_backwards: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_text_backwards: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_text_backwards: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_text_backwards: setter changes is_attribute_present");
    }
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_text_upside_down: getter does not reflect the stored bit");
      x.set_is_text_upside_down(b);
      sx::check(x.is_text_upside_down() == b, "AttributeDefinition.is_text_upside_down: getter does not return what was set");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 4 } else { r_text_generation_flags & !4 }, "AttributeDefinition.is_text_upside_down: setter changes other bits");
      sx::check(x.flags == r_flags, "AttributeDefinition.is_text_upside_down: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_text_upside_down: setter changes is_text_backwards");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_text_upside_down: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_text_upside_down: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_text_upside_down: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_text_upside_down: setter changes is_attribute_present");
    }
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_invisible: getter does not reflect the stored bit");
      x.set_is_invisible(b);
      sx::check(x.is_invisible() == b, "AttributeDefinition.is_invisible: getter does not return what was set");
      sx::check(x.text_generation_flags == r_text_generation_flags, "AttributeDefinition.is_invisible: setter changes other bits");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "AttributeDefinition.is_invisible: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_invisible: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_invisible: setter changes is_text_upside_down");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_invisible: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_invisible: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_invisible: setter changes is_attribute_present");
    }
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_constant: getter does not reflect the stored bit");
      x.set_is_constant(b);
      sx::check(x.is_constant() == b, "AttributeDefinition.is_constant: getter does not return what was set");
      sx::check(x.text_generation_flags == r_text_generation_flags, "AttributeDefinition.is_constant: setter changes other bits");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "AttributeDefinition.is_constant: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_constant: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_constant: setter changes is_text_upside_down");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_constant: setter changes is_invisible");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_constant: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_constant: setter changes is_attribute_present");
    }
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_input_verification_required: getter does not reflect the stored bit");
      x.set_is_input_verification_required(b);
      sx::check(x.is_input_verification_required() == b, "AttributeDefinition.is_input_verification_required: getter does not return what was set");
      sx::check(x.text_generation_flags == r_text_generation_flags, "AttributeDefinition.is_input_verification_required: setter changes other bits");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "AttributeDefinition.is_input_verification_required: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_input_verification_required: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_input_verification_required: setter changes is_text_upside_down");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_input_verification_required: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_input_verification_required: setter changes is_constant");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_input_verification_required: setter changes is_attribute_present");
    }
    { let mut x = AttributeDefinition::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "AttributeDefinition.is_attribute_present: getter does not reflect the stored bit");
      x.set_is_attribute_present(b);
      sx::check(x.is_attribute_present() == b, "AttributeDefinition.is_attribute_present: getter does not return what was set");
      sx::check(x.text_generation_flags == r_text_generation_flags, "AttributeDefinition.is_attribute_present: setter changes other bits");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "AttributeDefinition.is_attribute_present: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "AttributeDefinition.is_attribute_present: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "AttributeDefinition.is_attribute_present: setter changes is_text_upside_down");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "AttributeDefinition.is_attribute_present: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "AttributeDefinition.is_attribute_present: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "AttributeDefinition.is_attribute_present: setter changes is_input_verification_required");
    }
}
fn f_Attribute() {
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_invisible: getter does not reflect the stored bit");
      x.set_is_invisible(b);
      sx::check(x.is_invisible() == b, "Attribute.is_invisible: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "Attribute.is_invisible: setter changes other bits");
      sx::check(x.text_generation_flags == r_text_generation_flags, "Attribute.is_invisible: setter changes other bits");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_invisible: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_invisible: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_invisible: setter changes is_attribute_present");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_invisible: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_invisible: setter changes is_text_upside_down");
    }
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_constant: getter does not reflect the stored bit");
      x.set_is_constant(b);
      sx::check(x.is_constant() == b, "Attribute.is_constant: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "Attribute.is_constant: setter changes other bits");
      sx::check(x.text_generation_flags == r_text_generation_flags, "Attribute.is_constant: setter changes other bits");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_constant: setter changes is_invisible");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_constant: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_constant: setter changes is_attribute_present");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_constant: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_constant: setter changes is_text_upside_down");
    }
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_input_verification_required: getter does not reflect the stored bit");
      x.set_is_input_verification_required(b);
      sx::check(x.is_input_verification_required() == b, "Attribute.is_input_verification_required: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "Attribute.is_input_verification_required: setter changes other bits");
      sx::check(x.text_generation_flags == r_text_generation_flags, "Attribute.is_input_verification_required: setter changes other bits");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_input_verification_required: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_input_verification_required: setter changes is_constant");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_input_verification_required: setter changes is_attribute_present");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_input_verification_required: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_input_verification_required: setter changes is_text_upside_down");
    }
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_attribute_present: getter does not reflect the stored bit");
      x.set_is_attribute_present(b);
      sx::check(x.is_attribute_present() == b, "Attribute.is_attribute_present: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "Attribute.is_attribute_present: setter changes other bits");
      sx::check(x.text_generation_flags == r_text_generation_flags, "Attribute.is_attribute_present: setter changes other bits");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_attribute_present: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_attribute_present: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_attribute_present: setter changes is_input_verification_required");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_attribute_present: setter changes is_text_backwards");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_attribute_present: setter changes is_text_upside_down");
    }
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_text_backwards: getter does not reflect the stored bit");
      x.set_is_text_backwards(b);
      sx::check(x.is_text_backwards() == b, "Attribute.is_text_backwards: getter does not return what was set");
      sx::check(x.flags == r_flags, "Attribute.is_text_backwards: setter changes other bits");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 2 } else { r_text_generation_flags & !2 }, "Attribute.is_text_backwards: setter changes other bits");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_text_backwards: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_text_backwards: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_text_backwards: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_text_backwards: setter changes is_attribute_present");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_text_backwards: setter changes is_text_upside_down");
    }
    { let mut x = Attribute::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Attribute.is_text_upside_down: getter does not reflect the stored bit");
      x.set_is_text_upside_down(b);
      sx::check(x.is_text_upside_down() == b, "Attribute.is_text_upside_down: getter does not return what was set");
      sx::check(x.flags == r_flags, "Attribute.is_text_upside_down: setter changes other bits");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 4 } else { r_text_generation_flags & !4 }, "Attribute.is_text_upside_down: setter changes other bits");
      sx::check(x.is_invisible() == (r_flags & 1 != 0), "Attribute.is_text_upside_down: setter changes is_invisible");
      sx::check(x.is_constant() == (r_flags & 2 != 0), "Attribute.is_text_upside_down: setter changes is_constant");
      sx::check(x.is_input_verification_required() == (r_flags & 4 != 0), "Attribute.is_text_upside_down: setter changes is_input_verification_required");
      sx::check(x.is_attribute_present() == (r_flags & 8 != 0), "Attribute.is_text_upside_down: setter changes is_attribute_present");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Attribute.is_text_upside_down: setter changes is_text_backwards");
    }
}
fn f_Image() {
    { let mut x = Image::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Image.show_image: getter does not reflect the stored bit");
      x.set_show_image(b);
      sx::check(x.show_image() == b, "Image.show_image: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 1 } else { r_display_options_flags & !1 }, "Image.show_image: setter changes other bits");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Image.show_image: setter changes show_image_when_not_alligned");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Image.show_image: setter changes use_clipping_boundary");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Image.show_image: setter changes use_transparency");
    }
    { let mut x = Image::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Image.show_image_when_not_alligned: getter does not reflect the stored bit");
      x.set_show_image_when_not_alligned(b);
      sx::check(x.show_image_when_not_alligned() == b, "Image.show_image_when_not_alligned: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 2 } else { r_display_options_flags & !2 }, "Image.show_image_when_not_alligned: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Image.show_image_when_not_alligned: setter changes show_image");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Image.show_image_when_not_alligned: setter changes use_clipping_boundary");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Image.show_image_when_not_alligned: setter changes use_transparency");
    }
    { let mut x = Image::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Image.use_clipping_boundary: getter does not reflect the stored bit");
      x.set_use_clipping_boundary(b);
      sx::check(x.use_clipping_boundary() == b, "Image.use_clipping_boundary: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 4 } else { r_display_options_flags & !4 }, "Image.use_clipping_boundary: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Image.use_clipping_boundary: setter changes show_image");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Image.use_clipping_boundary: setter changes show_image_when_not_alligned");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Image.use_clipping_boundary: setter changes use_transparency");
    }
    { let mut x = Image::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Image.use_transparency: getter does not reflect the stored bit");
      x.set_use_transparency(b);
      sx::check(x.use_transparency() == b, "Image.use_transparency: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 8 } else { r_display_options_flags & !8 }, "Image.use_transparency: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Image.use_transparency: setter changes show_image");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Image.use_transparency: setter changes show_image_when_not_alligned");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Image.use_transparency: setter changes use_clipping_boundary");
    }
}
fn f_LwPolyline() {
    { let mut x = LwPolyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_closed() == (r_flags & 1 != 0), "LwPolyline.is_closed: getter does not reflect the stored bit");
      x.set_is_closed(b);
      sx::check(x.is_closed() == b, "LwPolyline.is_closed: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "LwPolyline.is_closed: setter changes other bits");
      sx::check(x.is_pline_gen() == (r_flags & 128 != 0), "LwPolyline.is_closed: setter changes is_pline_gen");
    }
    { let mut x = LwPolyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_pline_gen() == (r_flags & 128 != 0), "LwPolyline.is_pline_gen: getter does not reflect the stored bit");
      x.set_is_pline_gen(b);
      sx::check(x.is_pline_gen() == b, "LwPolyline.is_pline_gen: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 128 } else { r_flags & !128 }, "LwPolyline.is_pline_gen: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "LwPolyline.is_pline_gen: setter changes is_closed");
    }
}
fn f_MLine() {
    { let mut x = MLine::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.has_at_least_one_vertex() == (r_flags & 1 != 0), "MLine.has_at_least_one_vertex: getter does not reflect the stored bit");
      x.set_has_at_least_one_vertex(b);
      sx::check(x.has_at_least_one_vertex() == b, "MLine.has_at_least_one_vertex: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "MLine.has_at_least_one_vertex: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 2 != 0), "MLine.has_at_least_one_vertex: setter changes is_closed");
      sx::check(x.suppress_start_caps() == (r_flags & 4 != 0), "MLine.has_at_least_one_vertex: setter changes suppress_start_caps");
      sx::check(x.suppress_end_caps() == (r_flags & 8 != 0), "MLine.has_at_least_one_vertex: setter changes suppress_end_caps");
    }
    { let mut x = MLine::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_closed() == (r_flags & 2 != 0), "MLine.is_closed: getter does not reflect the stored bit");
      x.set_is_closed(b);
      sx::check(x.is_closed() == b, "MLine.is_closed: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "MLine.is_closed: setter changes other bits");
      sx::check(x.has_at_least_one_vertex() == (r_flags & 1 != 0), "MLine.is_closed: setter changes has_at_least_one_vertex");
      sx::check(x.suppress_start_caps() == (r_flags & 4 != 0), "MLine.is_closed: setter changes suppress_start_caps");
      sx::check(x.suppress_end_caps() == (r_flags & 8 != 0), "MLine.is_closed: setter changes suppress_end_caps");
    }
    { let mut x = MLine::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.suppress_start_caps() == (r_flags & 4 != 0), "MLine.suppress_start_caps: getter does not reflect the stored bit");
      x.set_suppress_start_caps(b);
      sx::check(x.suppress_start_caps() == b, "MLine.suppress_start_caps: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "MLine.suppress_start_caps: setter changes other bits");
      sx::check(x.has_at_least_one_vertex() == (r_flags & 1 != 0), "MLine.suppress_start_caps: setter changes has_at_least_one_vertex");
      sx::check(x.is_closed() == (r_flags & 2 != 0), "MLine.suppress_start_caps: setter changes is_closed");
      sx::check(x.suppress_end_caps() == (r_flags & 8 != 0), "MLine.suppress_start_caps: setter changes suppress_end_caps");
    }
    { let mut x = MLine::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.suppress_end_caps() == (r_flags & 8 != 0), "MLine.suppress_end_caps: getter does not reflect the stored bit");
      x.set_suppress_end_caps(b);
      sx::check(x.suppress_end_caps() == b, "MLine.suppress_end_caps: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "MLine.suppress_end_caps: setter changes other bits");
      sx::check(x.has_at_least_one_vertex() == (r_flags & 1 != 0), "MLine.suppress_end_caps: setter changes has_at_least_one_vertex");
      sx::check(x.is_closed() == (r_flags & 2 != 0), "MLine.suppress_end_caps: setter changes is_closed");
      sx::check(x.suppress_start_caps() == (r_flags & 4 != 0), "MLine.suppress_end_caps: setter changes suppress_start_caps");
    }
}
fn f_Polyline() {
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_closed: getter does not reflect the stored bit");
      x.set_is_closed(b);
      sx::check(x.is_closed() == b, "Polyline.is_closed: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "Polyline.is_closed: setter changes other bits");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_closed: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_closed: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_closed: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_closed: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_closed: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_closed: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_closed: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.curve_fit_vertices_added: getter does not reflect the stored bit");
      x.set_curve_fit_vertices_added(b);
      sx::check(x.curve_fit_vertices_added() == b, "Polyline.curve_fit_vertices_added: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "Polyline.curve_fit_vertices_added: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.curve_fit_vertices_added: setter changes is_closed");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.curve_fit_vertices_added: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.curve_fit_vertices_added: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.curve_fit_vertices_added: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.curve_fit_vertices_added: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.curve_fit_vertices_added: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.curve_fit_vertices_added: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.spline_fit_vertices_added: getter does not reflect the stored bit");
      x.set_spline_fit_vertices_added(b);
      sx::check(x.spline_fit_vertices_added() == b, "Polyline.spline_fit_vertices_added: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "Polyline.spline_fit_vertices_added: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.spline_fit_vertices_added: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.spline_fit_vertices_added: setter changes curve_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.spline_fit_vertices_added: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.spline_fit_vertices_added: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.spline_fit_vertices_added: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.spline_fit_vertices_added: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.spline_fit_vertices_added: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_3d_polyline: getter does not reflect the stored bit");
      x.set_is_3d_polyline(b);
      sx::check(x.is_3d_polyline() == b, "Polyline.is_3d_polyline: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "Polyline.is_3d_polyline: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_3d_polyline: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_3d_polyline: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_3d_polyline: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_3d_polyline: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_3d_polyline: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_3d_polyline: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_3d_polyline: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_3d_polygon_mesh: getter does not reflect the stored bit");
      x.set_is_3d_polygon_mesh(b);
      sx::check(x.is_3d_polygon_mesh() == b, "Polyline.is_3d_polygon_mesh: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "Polyline.is_3d_polygon_mesh: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_3d_polygon_mesh: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_3d_polygon_mesh: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_3d_polygon_mesh: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_3d_polygon_mesh: setter changes is_3d_polyline");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_3d_polygon_mesh: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_3d_polygon_mesh: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_3d_polygon_mesh: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: getter does not reflect the stored bit");
      x.set_is_polygon_mesh_closed_in_n_direction(b);
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == b, "Polyline.is_polygon_mesh_closed_in_n_direction: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 32 } else { r_flags & !32 }, "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes is_polyface_mesh");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_polygon_mesh_closed_in_n_direction: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_polyface_mesh: getter does not reflect the stored bit");
      x.set_is_polyface_mesh(b);
      sx::check(x.is_polyface_mesh() == b, "Polyline.is_polyface_mesh: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 64 } else { r_flags & !64 }, "Polyline.is_polyface_mesh: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_polyface_mesh: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_polyface_mesh: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_polyface_mesh: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_polyface_mesh: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_polyface_mesh: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_polyface_mesh: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_polyface_mesh: setter changes is_line_type_pattern_generated_continuously");
    }
    { let mut x = Polyline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_line_type_pattern_generated_continuously() == (r_flags & 128 != 0), "Polyline.is_line_type_pattern_generated_continuously: getter does not reflect the stored bit");
      x.set_is_line_type_pattern_generated_continuously(b);
      sx::check(x.is_line_type_pattern_generated_continuously() == b, "Polyline.is_line_type_pattern_generated_continuously: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 128 } else { r_flags & !128 }, "Polyline.is_line_type_pattern_generated_continuously: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes is_closed");
      sx::check(x.curve_fit_vertices_added() == (r_flags & 2 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes curve_fit_vertices_added");
      sx::check(x.spline_fit_vertices_added() == (r_flags & 4 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes spline_fit_vertices_added");
      sx::check(x.is_3d_polyline() == (r_flags & 8 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes is_3d_polyline");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 16 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polygon_mesh_closed_in_n_direction() == (r_flags & 32 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes is_polygon_mesh_closed_in_n_direction");
      sx::check(x.is_polyface_mesh() == (r_flags & 64 != 0), "Polyline.is_line_type_pattern_generated_continuously: setter changes is_polyface_mesh");
    }
}
fn f_RText() {
    { let mut x = RText::default();
      let r_type_flags = sx::i32(); x.type_flags = r_type_flags;
      let b = sx::bool_();
      sx::check(x.is_expression() == (r_type_flags & 1 != 0), "RText.is_expression: getter does not reflect the stored bit");
      x.set_is_expression(b);
      sx::check(x.is_expression() == b, "RText.is_expression: getter does not return what was set");
      sx::check(x.type_flags == if b { r_type_flags | 1 } else { r_type_flags & !1 }, "RText.is_expression: setter changes other bits");
      sx::check(x.is_inline_mtext_sequences_enabled() == (r_type_flags & 2 != 0), "RText.is_expression: setter changes is_inline_mtext_sequences_enabled");
    }
    { let mut x = RText::default();
      let r_type_flags = sx::i32(); x.type_flags = r_type_flags;
      let b = sx::bool_();
      sx::check(x.is_inline_mtext_sequences_enabled() == (r_type_flags & 2 != 0), "RText.is_inline_mtext_sequences_enabled: getter does not reflect the stored bit");
      x.set_is_inline_mtext_sequences_enabled(b);
      sx::check(x.is_inline_mtext_sequences_enabled() == b, "RText.is_inline_mtext_sequences_enabled: getter does not return what was set");
      sx::check(x.type_flags == if b { r_type_flags | 2 } else { r_type_flags & !2 }, "RText.is_inline_mtext_sequences_enabled: setter changes other bits");
      sx::check(x.is_expression() == (r_type_flags & 1 != 0), "RText.is_inline_mtext_sequences_enabled: setter changes is_expression");
    }
}
fn f_Spline() {
    { let mut x = Spline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Spline.is_closed: getter does not reflect the stored bit");
      x.set_is_closed(b);
      sx::check(x.is_closed() == b, "Spline.is_closed: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "Spline.is_closed: setter changes other bits");
      sx::check(x.is_periodic() == (r_flags & 2 != 0), "Spline.is_closed: setter changes is_periodic");
      sx::check(x.is_rational() == (r_flags & 4 != 0), "Spline.is_closed: setter changes is_rational");
      sx::check(x.is_planar() == (r_flags & 8 != 0), "Spline.is_closed: setter changes is_planar");
      sx::check(x.is_linear() == (r_flags & 16 != 0), "Spline.is_closed: setter changes is_linear");
    }
    { let mut x = Spline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_periodic() == (r_flags & 2 != 0), "Spline.is_periodic: getter does not reflect the stored bit");
      x.set_is_periodic(b);
      sx::check(x.is_periodic() == b, "Spline.is_periodic: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "Spline.is_periodic: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Spline.is_periodic: setter changes is_closed");
      sx::check(x.is_rational() == (r_flags & 4 != 0), "Spline.is_periodic: setter changes is_rational");
      sx::check(x.is_planar() == (r_flags & 8 != 0), "Spline.is_periodic: setter changes is_planar");
      sx::check(x.is_linear() == (r_flags & 16 != 0), "Spline.is_periodic: setter changes is_linear");
    }
    { let mut x = Spline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_rational() == (r_flags & 4 != 0), "Spline.is_rational: getter does not reflect the stored bit");
      x.set_is_rational(b);
      sx::check(x.is_rational() == b, "Spline.is_rational: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "Spline.is_rational: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Spline.is_rational: setter changes is_closed");
      sx::check(x.is_periodic() == (r_flags & 2 != 0), "Spline.is_rational: setter changes is_periodic");
      sx::check(x.is_planar() == (r_flags & 8 != 0), "Spline.is_rational: setter changes is_planar");
      sx::check(x.is_linear() == (r_flags & 16 != 0), "Spline.is_rational: setter changes is_linear");
    }
    { let mut x = Spline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_planar() == (r_flags & 8 != 0), "Spline.is_planar: getter does not reflect the stored bit");
      x.set_is_planar(b);
      sx::check(x.is_planar() == b, "Spline.is_planar: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "Spline.is_planar: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Spline.is_planar: setter changes is_closed");
      sx::check(x.is_periodic() == (r_flags & 2 != 0), "Spline.is_planar: setter changes is_periodic");
      sx::check(x.is_rational() == (r_flags & 4 != 0), "Spline.is_planar: setter changes is_rational");
      sx::check(x.is_linear() == (r_flags & 16 != 0), "Spline.is_planar: setter changes is_linear");
    }
    { let mut x = Spline::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_linear() == (r_flags & 16 != 0), "Spline.is_linear: getter does not reflect the stored bit");
      x.set_is_linear(b);
      sx::check(x.is_linear() == b, "Spline.is_linear: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "Spline.is_linear: setter changes other bits");
      sx::check(x.is_closed() == (r_flags & 1 != 0), "Spline.is_linear: setter changes is_closed");
      sx::check(x.is_periodic() == (r_flags & 2 != 0), "Spline.is_linear: setter changes is_periodic");
      sx::check(x.is_rational() == (r_flags & 4 != 0), "Spline.is_linear: setter changes is_rational");
      sx::check(x.is_planar() == (r_flags & 8 != 0), "Spline.is_linear: setter changes is_planar");
    }
}
fn f_Text() {
    { let mut x = Text::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Text.is_text_backwards: getter does not reflect the stored bit");
      x.set_is_text_backwards(b);
      sx::check(x.is_text_backwards() == b, "Text.is_text_backwards: getter does not return what was set");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 2 } else { r_text_generation_flags & !2 }, "Text.is_text_backwards: setter changes other bits");
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Text.is_text_backwards: setter changes is_text_upside_down");
    }
    { let mut x = Text::default();
      let r_text_generation_flags = sx::i32(); x.text_generation_flags = r_text_generation_flags;
      let b = sx::bool_();
      sx::check(x.is_text_upside_down() == (r_text_generation_flags & 4 != 0), "Text.is_text_upside_down: getter does not reflect the stored bit");
      x.set_is_text_upside_down(b);
      sx::check(x.is_text_upside_down() == b, "Text.is_text_upside_down: getter does not return what was set");
      sx::check(x.text_generation_flags == if b { r_text_generation_flags | 4 } else { r_text_generation_flags & !4 }, "Text.is_text_upside_down: setter changes other bits");
      sx::check(x.is_text_backwards() == (r_text_generation_flags & 2 != 0), "Text.is_text_upside_down: setter changes is_text_backwards");
    }
}
fn f_DgnUnderlay() {
    { let mut x = DgnUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DgnUnderlay.is_clipping_on: getter does not reflect the stored bit");
      x.set_is_clipping_on(b);
      sx::check(x.is_clipping_on() == b, "DgnUnderlay.is_clipping_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "DgnUnderlay.is_clipping_on: setter changes other bits");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DgnUnderlay.is_clipping_on: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DgnUnderlay.is_clipping_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DgnUnderlay.is_clipping_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DgnUnderlay.is_clipping_on: setter changes is_clip_inside_mode");
    }
    { let mut x = DgnUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DgnUnderlay.is_underlay_on: getter does not reflect the stored bit");
      x.set_is_underlay_on(b);
      sx::check(x.is_underlay_on() == b, "DgnUnderlay.is_underlay_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "DgnUnderlay.is_underlay_on: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DgnUnderlay.is_underlay_on: setter changes is_clipping_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DgnUnderlay.is_underlay_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DgnUnderlay.is_underlay_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DgnUnderlay.is_underlay_on: setter changes is_clip_inside_mode");
    }
    { let mut x = DgnUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DgnUnderlay.is_monochrome: getter does not reflect the stored bit");
      x.set_is_monochrome(b);
      sx::check(x.is_monochrome() == b, "DgnUnderlay.is_monochrome: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "DgnUnderlay.is_monochrome: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DgnUnderlay.is_monochrome: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DgnUnderlay.is_monochrome: setter changes is_underlay_on");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DgnUnderlay.is_monochrome: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DgnUnderlay.is_monochrome: setter changes is_clip_inside_mode");
    }
    { let mut x = DgnUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DgnUnderlay.adjust_for_background: getter does not reflect the stored bit");
      x.set_adjust_for_background(b);
      sx::check(x.adjust_for_background() == b, "DgnUnderlay.adjust_for_background: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "DgnUnderlay.adjust_for_background: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DgnUnderlay.adjust_for_background: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DgnUnderlay.adjust_for_background: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DgnUnderlay.adjust_for_background: setter changes is_monochrome");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DgnUnderlay.adjust_for_background: setter changes is_clip_inside_mode");
    }
    { let mut x = DgnUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DgnUnderlay.is_clip_inside_mode: getter does not reflect the stored bit");
      x.set_is_clip_inside_mode(b);
      sx::check(x.is_clip_inside_mode() == b, "DgnUnderlay.is_clip_inside_mode: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "DgnUnderlay.is_clip_inside_mode: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DgnUnderlay.is_clip_inside_mode: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DgnUnderlay.is_clip_inside_mode: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DgnUnderlay.is_clip_inside_mode: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DgnUnderlay.is_clip_inside_mode: setter changes adjust_for_background");
    }
}
fn f_DwfUnderlay() {
    { let mut x = DwfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DwfUnderlay.is_clipping_on: getter does not reflect the stored bit");
      x.set_is_clipping_on(b);
      sx::check(x.is_clipping_on() == b, "DwfUnderlay.is_clipping_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "DwfUnderlay.is_clipping_on: setter changes other bits");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DwfUnderlay.is_clipping_on: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DwfUnderlay.is_clipping_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DwfUnderlay.is_clipping_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DwfUnderlay.is_clipping_on: setter changes is_clip_inside_mode");
    }
    { let mut x = DwfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DwfUnderlay.is_underlay_on: getter does not reflect the stored bit");
      x.set_is_underlay_on(b);
      sx::check(x.is_underlay_on() == b, "DwfUnderlay.is_underlay_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "DwfUnderlay.is_underlay_on: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DwfUnderlay.is_underlay_on: setter changes is_clipping_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DwfUnderlay.is_underlay_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DwfUnderlay.is_underlay_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DwfUnderlay.is_underlay_on: setter changes is_clip_inside_mode");
    }
    { let mut x = DwfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DwfUnderlay.is_monochrome: getter does not reflect the stored bit");
      x.set_is_monochrome(b);
      sx::check(x.is_monochrome() == b, "DwfUnderlay.is_monochrome: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "DwfUnderlay.is_monochrome: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DwfUnderlay.is_monochrome: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DwfUnderlay.is_monochrome: setter changes is_underlay_on");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DwfUnderlay.is_monochrome: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DwfUnderlay.is_monochrome: setter changes is_clip_inside_mode");
    }
    { let mut x = DwfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DwfUnderlay.adjust_for_background: getter does not reflect the stored bit");
      x.set_adjust_for_background(b);
      sx::check(x.adjust_for_background() == b, "DwfUnderlay.adjust_for_background: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "DwfUnderlay.adjust_for_background: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DwfUnderlay.adjust_for_background: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DwfUnderlay.adjust_for_background: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DwfUnderlay.adjust_for_background: setter changes is_monochrome");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DwfUnderlay.adjust_for_background: setter changes is_clip_inside_mode");
    }
    { let mut x = DwfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "DwfUnderlay.is_clip_inside_mode: getter does not reflect the stored bit");
      x.set_is_clip_inside_mode(b);
      sx::check(x.is_clip_inside_mode() == b, "DwfUnderlay.is_clip_inside_mode: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "DwfUnderlay.is_clip_inside_mode: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "DwfUnderlay.is_clip_inside_mode: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "DwfUnderlay.is_clip_inside_mode: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "DwfUnderlay.is_clip_inside_mode: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "DwfUnderlay.is_clip_inside_mode: setter changes adjust_for_background");
    }
}
fn f_PdfUnderlay() {
    { let mut x = PdfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "PdfUnderlay.is_clipping_on: getter does not reflect the stored bit");
      x.set_is_clipping_on(b);
      sx::check(x.is_clipping_on() == b, "PdfUnderlay.is_clipping_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "PdfUnderlay.is_clipping_on: setter changes other bits");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "PdfUnderlay.is_clipping_on: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "PdfUnderlay.is_clipping_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "PdfUnderlay.is_clipping_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "PdfUnderlay.is_clipping_on: setter changes is_clip_inside_mode");
    }
    { let mut x = PdfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "PdfUnderlay.is_underlay_on: getter does not reflect the stored bit");
      x.set_is_underlay_on(b);
      sx::check(x.is_underlay_on() == b, "PdfUnderlay.is_underlay_on: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "PdfUnderlay.is_underlay_on: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "PdfUnderlay.is_underlay_on: setter changes is_clipping_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "PdfUnderlay.is_underlay_on: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "PdfUnderlay.is_underlay_on: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "PdfUnderlay.is_underlay_on: setter changes is_clip_inside_mode");
    }
    { let mut x = PdfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "PdfUnderlay.is_monochrome: getter does not reflect the stored bit");
      x.set_is_monochrome(b);
      sx::check(x.is_monochrome() == b, "PdfUnderlay.is_monochrome: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "PdfUnderlay.is_monochrome: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "PdfUnderlay.is_monochrome: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "PdfUnderlay.is_monochrome: setter changes is_underlay_on");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "PdfUnderlay.is_monochrome: setter changes adjust_for_background");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "PdfUnderlay.is_monochrome: setter changes is_clip_inside_mode");
    }
    { let mut x = PdfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "PdfUnderlay.adjust_for_background: getter does not reflect the stored bit");
      x.set_adjust_for_background(b);
      sx::check(x.adjust_for_background() == b, "PdfUnderlay.adjust_for_background: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "PdfUnderlay.adjust_for_background: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "PdfUnderlay.adjust_for_background: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "PdfUnderlay.adjust_for_background: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "PdfUnderlay.adjust_for_background: setter changes is_monochrome");
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "PdfUnderlay.adjust_for_background: setter changes is_clip_inside_mode");
    }
    { let mut x = PdfUnderlay::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_clip_inside_mode() == (r_flags & 16 != 0), "PdfUnderlay.is_clip_inside_mode: getter does not reflect the stored bit");
      x.set_is_clip_inside_mode(b);
      sx::check(x.is_clip_inside_mode() == b, "PdfUnderlay.is_clip_inside_mode: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "PdfUnderlay.is_clip_inside_mode: setter changes other bits");
      sx::check(x.is_clipping_on() == (r_flags & 1 != 0), "PdfUnderlay.is_clip_inside_mode: setter changes is_clipping_on");
      sx::check(x.is_underlay_on() == (r_flags & 2 != 0), "PdfUnderlay.is_clip_inside_mode: setter changes is_underlay_on");
      sx::check(x.is_monochrome() == (r_flags & 4 != 0), "PdfUnderlay.is_clip_inside_mode: setter changes is_monochrome");
      sx::check(x.adjust_for_background() == (r_flags & 8 != 0), "PdfUnderlay.is_clip_inside_mode: setter changes adjust_for_background");
    }
}
fn f_Vertex() {
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_extra_created_by_curve_fit: getter does not reflect the stored bit");
      x.set_is_extra_created_by_curve_fit(b);
      sx::check(x.is_extra_created_by_curve_fit() == b, "Vertex.is_extra_created_by_curve_fit: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "Vertex.is_extra_created_by_curve_fit: setter changes other bits");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_3d_polyline_vertex");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_extra_created_by_curve_fit: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_curve_fit_tangent_defined: getter does not reflect the stored bit");
      x.set_is_curve_fit_tangent_defined(b);
      sx::check(x.is_curve_fit_tangent_defined() == b, "Vertex.is_curve_fit_tangent_defined: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "Vertex.is_curve_fit_tangent_defined: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_3d_polyline_vertex");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_curve_fit_tangent_defined: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: getter does not reflect the stored bit");
      x.set_is_spline_vertex_created_by_spline_fitting(b);
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == b, "Vertex.is_spline_vertex_created_by_spline_fitting: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_3d_polyline_vertex");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_spline_vertex_created_by_spline_fitting: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_spline_frame_control_point: getter does not reflect the stored bit");
      x.set_is_spline_frame_control_point(b);
      sx::check(x.is_spline_frame_control_point() == b, "Vertex.is_spline_frame_control_point: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "Vertex.is_spline_frame_control_point: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_spline_frame_control_point: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_spline_frame_control_point: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_spline_frame_control_point: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_spline_frame_control_point: setter changes is_3d_polyline_vertex");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_spline_frame_control_point: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_spline_frame_control_point: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_3d_polyline_vertex: getter does not reflect the stored bit");
      x.set_is_3d_polyline_vertex(b);
      sx::check(x.is_3d_polyline_vertex() == b, "Vertex.is_3d_polyline_vertex: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 32 } else { r_flags & !32 }, "Vertex.is_3d_polyline_vertex: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_3d_polygon_mesh");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_3d_polyline_vertex: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_3d_polygon_mesh: getter does not reflect the stored bit");
      x.set_is_3d_polygon_mesh(b);
      sx::check(x.is_3d_polygon_mesh() == b, "Vertex.is_3d_polygon_mesh: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 64 } else { r_flags & !64 }, "Vertex.is_3d_polygon_mesh: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_3d_polyline_vertex");
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_3d_polygon_mesh: setter changes is_polyface_mesh_vertex");
    }
    { let mut x = Vertex::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_polyface_mesh_vertex() == (r_flags & 128 != 0), "Vertex.is_polyface_mesh_vertex: getter does not reflect the stored bit");
      x.set_is_polyface_mesh_vertex(b);
      sx::check(x.is_polyface_mesh_vertex() == b, "Vertex.is_polyface_mesh_vertex: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 128 } else { r_flags & !128 }, "Vertex.is_polyface_mesh_vertex: setter changes other bits");
      sx::check(x.is_extra_created_by_curve_fit() == (r_flags & 1 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_extra_created_by_curve_fit");
      sx::check(x.is_curve_fit_tangent_defined() == (r_flags & 2 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_curve_fit_tangent_defined");
      sx::check(x.is_spline_vertex_created_by_spline_fitting() == (r_flags & 8 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_spline_vertex_created_by_spline_fitting");
      sx::check(x.is_spline_frame_control_point() == (r_flags & 16 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_spline_frame_control_point");
      sx::check(x.is_3d_polyline_vertex() == (r_flags & 32 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_3d_polyline_vertex");
      sx::check(x.is_3d_polygon_mesh() == (r_flags & 64 != 0), "Vertex.is_polyface_mesh_vertex: setter changes is_3d_polygon_mesh");
    }
}
fn f_Wipeout() {
    { let mut x = Wipeout::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Wipeout.show_image: getter does not reflect the stored bit");
      x.set_show_image(b);
      sx::check(x.show_image() == b, "Wipeout.show_image: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 1 } else { r_display_options_flags & !1 }, "Wipeout.show_image: setter changes other bits");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Wipeout.show_image: setter changes show_image_when_not_alligned");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Wipeout.show_image: setter changes use_clipping_boundary");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Wipeout.show_image: setter changes use_transparency");
    }
    { let mut x = Wipeout::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Wipeout.show_image_when_not_alligned: getter does not reflect the stored bit");
      x.set_show_image_when_not_alligned(b);
      sx::check(x.show_image_when_not_alligned() == b, "Wipeout.show_image_when_not_alligned: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 2 } else { r_display_options_flags & !2 }, "Wipeout.show_image_when_not_alligned: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Wipeout.show_image_when_not_alligned: setter changes show_image");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Wipeout.show_image_when_not_alligned: setter changes use_clipping_boundary");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Wipeout.show_image_when_not_alligned: setter changes use_transparency");
    }
    { let mut x = Wipeout::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Wipeout.use_clipping_boundary: getter does not reflect the stored bit");
      x.set_use_clipping_boundary(b);
      sx::check(x.use_clipping_boundary() == b, "Wipeout.use_clipping_boundary: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 4 } else { r_display_options_flags & !4 }, "Wipeout.use_clipping_boundary: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Wipeout.use_clipping_boundary: setter changes show_image");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Wipeout.use_clipping_boundary: setter changes show_image_when_not_alligned");
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Wipeout.use_clipping_boundary: setter changes use_transparency");
    }
    { let mut x = Wipeout::default();
      let r_display_options_flags = sx::i32(); x.display_options_flags = r_display_options_flags;
      let b = sx::bool_();
      sx::check(x.use_transparency() == (r_display_options_flags & 8 != 0), "Wipeout.use_transparency: getter does not reflect the stored bit");
      x.set_use_transparency(b);
      sx::check(x.use_transparency() == b, "Wipeout.use_transparency: getter does not return what was set");
      sx::check(x.display_options_flags == if b { r_display_options_flags | 8 } else { r_display_options_flags & !8 }, "Wipeout.use_transparency: setter changes other bits");
      sx::check(x.show_image() == (r_display_options_flags & 1 != 0), "Wipeout.use_transparency: setter changes show_image");
      sx::check(x.show_image_when_not_alligned() == (r_display_options_flags & 2 != 0), "Wipeout.use_transparency: setter changes show_image_when_not_alligned");
      sx::check(x.use_clipping_boundary() == (r_display_options_flags & 4 != 0), "Wipeout.use_transparency: setter changes use_clipping_boundary");
    }
}
fn f_DimensionAssoc() {
    { let mut x = DimensionAssoc::default();
      let r_associativity_flags = sx::i32(); x.associativity_flags = r_associativity_flags;
      let b = sx::bool_();
      sx::check(x.is_first_point_reference() == (r_associativity_flags & 1 != 0), "DimensionAssoc.is_first_point_reference: getter does not reflect the stored bit");
      x.set_is_first_point_reference(b);
      sx::check(x.is_first_point_reference() == b, "DimensionAssoc.is_first_point_reference: getter does not return what was set");
      sx::check(x.associativity_flags == if b { r_associativity_flags | 1 } else { r_associativity_flags & !1 }, "DimensionAssoc.is_first_point_reference: setter changes other bits");
      sx::check(x.is_second_point_reference() == (r_associativity_flags & 2 != 0), "DimensionAssoc.is_first_point_reference: setter changes is_second_point_reference");
      sx::check(x.is_third_point_reference() == (r_associativity_flags & 4 != 0), "DimensionAssoc.is_first_point_reference: setter changes is_third_point_reference");
      sx::check(x.is_fourth_point_reference() == (r_associativity_flags & 8 != 0), "DimensionAssoc.is_first_point_reference: setter changes is_fourth_point_reference");
    }
    { let mut x = DimensionAssoc::default();
      let r_associativity_flags = sx::i32(); x.associativity_flags = r_associativity_flags;
      let b = sx::bool_();
      sx::check(x.is_second_point_reference() == (r_associativity_flags & 2 != 0), "DimensionAssoc.is_second_point_reference: getter does not reflect the stored bit");
      x.set_is_second_point_reference(b);
      sx::check(x.is_second_point_reference() == b, "DimensionAssoc.is_second_point_reference: getter does not return what was set");
      sx::check(x.associativity_flags == if b { r_associativity_flags | 2 } else { r_associativity_flags & !2 }, "DimensionAssoc.is_second_point_reference: setter changes other bits");
      sx::check(x.is_first_point_reference() == (r_associativity_flags & 1 != 0), "DimensionAssoc.is_second_point_reference: setter changes is_first_point_reference");
      sx::check(x.is_third_point_reference() == (r_associativity_flags & 4 != 0), "DimensionAssoc.is_second_point_reference: setter changes is_third_point_reference");
      sx::check(x.is_fourth_point_reference() == (r_associativity_flags & 8 != 0), "DimensionAssoc.is_second_point_reference: setter changes is_fourth_point_reference");
    }
    { let mut x = DimensionAssoc::default();
      let r_associativity_flags = sx::i32(); x.associativity_flags = r_associativity_flags;
      let b = sx::bool_();
      sx::check(x.is_third_point_reference() == (r_associativity_flags & 4 != 0), "DimensionAssoc.is_third_point_reference: getter does not reflect the stored bit");
      x.set_is_third_point_reference(b);
      sx::check(x.is_third_point_reference() == b, "DimensionAssoc.is_third_point_reference: getter does not return what was set");
      sx::check(x.associativity_flags == if b { r_associativity_flags | 4 } else { r_associativity_flags & !4 }, "DimensionAssoc.is_third_point_reference: setter changes other bits");
      sx::check(x.is_first_point_reference() == (r_associativity_flags & 1 != 0), "DimensionAssoc.is_third_point_reference: setter changes is_first_point_reference");
      sx::check(x.is_second_point_reference() == (r_associativity_flags & 2 != 0), "DimensionAssoc.is_third_point_reference: setter changes is_second_point_reference");
      sx::check(x.is_fourth_point_reference() == (r_associativity_flags & 8 != 0), "DimensionAssoc.is_third_point_reference: setter changes is_fourth_point_reference");
    }
    { let mut x = DimensionAssoc::default();
      let r_associativity_flags = sx::i32(); x.associativity_flags = r_associativity_flags;
      let b = sx::bool_();
      sx::check(x.is_fourth_point_reference() == (r_associativity_flags & 8 != 0), "DimensionAssoc.is_fourth_point_reference: getter does not reflect the stored bit");
      x.set_is_fourth_point_reference(b);
      sx::check(x.is_fourth_point_reference() == b, "DimensionAssoc.is_fourth_point_reference: getter does not return what was set");
      sx::check(x.associativity_flags == if b { r_associativity_flags | 8 } else { r_associativity_flags & !8 }, "DimensionAssoc.is_fourth_point_reference: setter changes other bits");
      sx::check(x.is_first_point_reference() == (r_associativity_flags & 1 != 0), "DimensionAssoc.is_fourth_point_reference: setter changes is_first_point_reference");
      sx::check(x.is_second_point_reference() == (r_associativity_flags & 2 != 0), "DimensionAssoc.is_fourth_point_reference: setter changes is_second_point_reference");
      sx::check(x.is_third_point_reference() == (r_associativity_flags & 4 != 0), "DimensionAssoc.is_fourth_point_reference: setter changes is_third_point_reference");
    }
}
fn f_Layout() {
    { let mut x = Layout::default();
      let r_layout_flags = sx::i32(); x.layout_flags = r_layout_flags;
      let b = sx::bool_();
      sx::check(x.is_ps_lt_scale() == (r_layout_flags & 1 != 0), "Layout.is_ps_lt_scale: getter does not reflect the stored bit");
      x.set_is_ps_lt_scale(b);
      sx::check(x.is_ps_lt_scale() == b, "Layout.is_ps_lt_scale: getter does not return what was set");
      sx::check(x.layout_flags == if b { r_layout_flags | 1 } else { r_layout_flags & !1 }, "Layout.is_ps_lt_scale: setter changes other bits");
      sx::check(x.is_lim_check() == (r_layout_flags & 2 != 0), "Layout.is_ps_lt_scale: setter changes is_lim_check");
    }
    { let mut x = Layout::default();
      let r_layout_flags = sx::i32(); x.layout_flags = r_layout_flags;
      let b = sx::bool_();
      sx::check(x.is_lim_check() == (r_layout_flags & 2 != 0), "Layout.is_lim_check: getter does not reflect the stored bit");
      x.set_is_lim_check(b);
      sx::check(x.is_lim_check() == b, "Layout.is_lim_check: getter does not return what was set");
      sx::check(x.layout_flags == if b { r_layout_flags | 2 } else { r_layout_flags & !2 }, "Layout.is_lim_check: setter changes other bits");
      sx::check(x.is_ps_lt_scale() == (r_layout_flags & 1 != 0), "Layout.is_lim_check: setter changes is_ps_lt_scale");
    }
}
fn f_MLineStyle() {
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.fill_on: getter does not reflect the stored bit");
      x.set_fill_on(b);
      sx::check(x.fill_on() == b, "MLineStyle.fill_on: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 1 } else { r___flags & !1 }, "MLineStyle.fill_on: setter changes other bits");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.fill_on: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.fill_on: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.fill_on: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.fill_on: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.fill_on: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.fill_on: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.fill_on: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.display_miters: getter does not reflect the stored bit");
      x.set_display_miters(b);
      sx::check(x.display_miters() == b, "MLineStyle.display_miters: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 2 } else { r___flags & !2 }, "MLineStyle.display_miters: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.display_miters: setter changes fill_on");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.display_miters: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.display_miters: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.display_miters: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.display_miters: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.display_miters: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.display_miters: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.start_square_end_cap: getter does not reflect the stored bit");
      x.set_start_square_end_cap(b);
      sx::check(x.start_square_end_cap() == b, "MLineStyle.start_square_end_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 16 } else { r___flags & !16 }, "MLineStyle.start_square_end_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.start_square_end_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.start_square_end_cap: setter changes display_miters");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.start_square_end_cap: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.start_square_end_cap: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.start_square_end_cap: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.start_square_end_cap: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.start_square_end_cap: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.start_inner_arcs_cap: getter does not reflect the stored bit");
      x.set_start_inner_arcs_cap(b);
      sx::check(x.start_inner_arcs_cap() == b, "MLineStyle.start_inner_arcs_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 32 } else { r___flags & !32 }, "MLineStyle.start_inner_arcs_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.start_inner_arcs_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.start_inner_arcs_cap: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.start_inner_arcs_cap: setter changes start_square_end_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.start_inner_arcs_cap: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.start_inner_arcs_cap: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.start_inner_arcs_cap: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.start_inner_arcs_cap: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.start_round_cap: getter does not reflect the stored bit");
      x.set_start_round_cap(b);
      sx::check(x.start_round_cap() == b, "MLineStyle.start_round_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 64 } else { r___flags & !64 }, "MLineStyle.start_round_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.start_round_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.start_round_cap: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.start_round_cap: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.start_round_cap: setter changes start_inner_arcs_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.start_round_cap: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.start_round_cap: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.start_round_cap: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.end_square_cap: getter does not reflect the stored bit");
      x.set_end_square_cap(b);
      sx::check(x.end_square_cap() == b, "MLineStyle.end_square_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 256 } else { r___flags & !256 }, "MLineStyle.end_square_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.end_square_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.end_square_cap: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.end_square_cap: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.end_square_cap: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.end_square_cap: setter changes start_round_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.end_square_cap: setter changes end_inner_arcs_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.end_square_cap: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.end_inner_arcs_cap: getter does not reflect the stored bit");
      x.set_end_inner_arcs_cap(b);
      sx::check(x.end_inner_arcs_cap() == b, "MLineStyle.end_inner_arcs_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 512 } else { r___flags & !512 }, "MLineStyle.end_inner_arcs_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.end_inner_arcs_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.end_inner_arcs_cap: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.end_inner_arcs_cap: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.end_inner_arcs_cap: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.end_inner_arcs_cap: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.end_inner_arcs_cap: setter changes end_square_cap");
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.end_inner_arcs_cap: setter changes end_round_cap");
    }
    { let mut x = MLineStyle::default();
      let r___flags = sx::i32(); x.__flags = r___flags;
      let b = sx::bool_();
      sx::check(x.end_round_cap() == (r___flags & 1024 != 0), "MLineStyle.end_round_cap: getter does not reflect the stored bit");
      x.set_end_round_cap(b);
      sx::check(x.end_round_cap() == b, "MLineStyle.end_round_cap: getter does not return what was set");
      sx::check(x.__flags == if b { r___flags | 1024 } else { r___flags & !1024 }, "MLineStyle.end_round_cap: setter changes other bits");
      sx::check(x.fill_on() == (r___flags & 1 != 0), "MLineStyle.end_round_cap: setter changes fill_on");
      sx::check(x.display_miters() == (r___flags & 2 != 0), "MLineStyle.end_round_cap: setter changes display_miters");
      sx::check(x.start_square_end_cap() == (r___flags & 16 != 0), "MLineStyle.end_round_cap: setter changes start_square_end_cap");
      sx::check(x.start_inner_arcs_cap() == (r___flags & 32 != 0), "MLineStyle.end_round_cap: setter changes start_inner_arcs_cap");
      sx::check(x.start_round_cap() == (r___flags & 64 != 0), "MLineStyle.end_round_cap: setter changes start_round_cap");
      sx::check(x.end_square_cap() == (r___flags & 256 != 0), "MLineStyle.end_round_cap: setter changes end_square_cap");
      sx::check(x.end_inner_arcs_cap() == (r___flags & 512 != 0), "MLineStyle.end_round_cap: setter changes end_inner_arcs_cap");
    }
}
fn f_PlotSettings() {
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.plot_viewport_borders: getter does not reflect the stored bit");
      x.set_plot_viewport_borders(b);
      sx::check(x.plot_viewport_borders() == b, "PlotSettings.plot_viewport_borders: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 1 } else { r_plot_layout_flags & !1 }, "PlotSettings.plot_viewport_borders: setter changes other bits");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.plot_viewport_borders: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.plot_viewport_borders: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.plot_viewport_borders: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.plot_viewport_borders: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.plot_viewport_borders: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.plot_viewport_borders: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.plot_viewport_borders: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.plot_viewport_borders: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.plot_viewport_borders: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.plot_viewport_borders: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.plot_viewport_borders: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.plot_viewport_borders: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.plot_viewport_borders: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.show_plot_styles: getter does not reflect the stored bit");
      x.set_show_plot_styles(b);
      sx::check(x.show_plot_styles() == b, "PlotSettings.show_plot_styles: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 2 } else { r_plot_layout_flags & !2 }, "PlotSettings.show_plot_styles: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.show_plot_styles: setter changes plot_viewport_borders");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.show_plot_styles: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.show_plot_styles: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.show_plot_styles: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.show_plot_styles: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.show_plot_styles: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.show_plot_styles: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.show_plot_styles: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.show_plot_styles: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.show_plot_styles: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.show_plot_styles: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.show_plot_styles: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.show_plot_styles: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.plot_centered: getter does not reflect the stored bit");
      x.set_plot_centered(b);
      sx::check(x.plot_centered() == b, "PlotSettings.plot_centered: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 4 } else { r_plot_layout_flags & !4 }, "PlotSettings.plot_centered: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.plot_centered: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.plot_centered: setter changes show_plot_styles");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.plot_centered: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.plot_centered: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.plot_centered: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.plot_centered: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.plot_centered: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.plot_centered: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.plot_centered: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.plot_centered: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.plot_centered: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.plot_centered: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.plot_centered: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.plot_hidden: getter does not reflect the stored bit");
      x.set_plot_hidden(b);
      sx::check(x.plot_hidden() == b, "PlotSettings.plot_hidden: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 8 } else { r_plot_layout_flags & !8 }, "PlotSettings.plot_hidden: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.plot_hidden: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.plot_hidden: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.plot_hidden: setter changes plot_centered");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.plot_hidden: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.plot_hidden: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.plot_hidden: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.plot_hidden: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.plot_hidden: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.plot_hidden: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.plot_hidden: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.plot_hidden: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.plot_hidden: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.plot_hidden: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.use_standard_scale: getter does not reflect the stored bit");
      x.set_use_standard_scale(b);
      sx::check(x.use_standard_scale() == b, "PlotSettings.use_standard_scale: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 16 } else { r_plot_layout_flags & !16 }, "PlotSettings.use_standard_scale: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.use_standard_scale: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.use_standard_scale: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.use_standard_scale: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.use_standard_scale: setter changes plot_hidden");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.use_standard_scale: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.use_standard_scale: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.use_standard_scale: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.use_standard_scale: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.use_standard_scale: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.use_standard_scale: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.use_standard_scale: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.use_standard_scale: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.use_standard_scale: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.plot_plot_styles: getter does not reflect the stored bit");
      x.set_plot_plot_styles(b);
      sx::check(x.plot_plot_styles() == b, "PlotSettings.plot_plot_styles: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 32 } else { r_plot_layout_flags & !32 }, "PlotSettings.plot_plot_styles: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.plot_plot_styles: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.plot_plot_styles: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.plot_plot_styles: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.plot_plot_styles: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.plot_plot_styles: setter changes use_standard_scale");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.plot_plot_styles: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.plot_plot_styles: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.plot_plot_styles: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.plot_plot_styles: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.plot_plot_styles: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.plot_plot_styles: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.plot_plot_styles: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.plot_plot_styles: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.scale_line_weights: getter does not reflect the stored bit");
      x.set_scale_line_weights(b);
      sx::check(x.scale_line_weights() == b, "PlotSettings.scale_line_weights: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 64 } else { r_plot_layout_flags & !64 }, "PlotSettings.scale_line_weights: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.scale_line_weights: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.scale_line_weights: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.scale_line_weights: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.scale_line_weights: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.scale_line_weights: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.scale_line_weights: setter changes plot_plot_styles");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.scale_line_weights: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.scale_line_weights: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.scale_line_weights: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.scale_line_weights: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.scale_line_weights: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.scale_line_weights: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.scale_line_weights: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.print_line_weights: getter does not reflect the stored bit");
      x.set_print_line_weights(b);
      sx::check(x.print_line_weights() == b, "PlotSettings.print_line_weights: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 128 } else { r_plot_layout_flags & !128 }, "PlotSettings.print_line_weights: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.print_line_weights: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.print_line_weights: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.print_line_weights: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.print_line_weights: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.print_line_weights: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.print_line_weights: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.print_line_weights: setter changes scale_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.print_line_weights: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.print_line_weights: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.print_line_weights: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.print_line_weights: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.print_line_weights: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.print_line_weights: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.draw_viewports_first: getter does not reflect the stored bit");
      x.set_draw_viewports_first(b);
      sx::check(x.draw_viewports_first() == b, "PlotSettings.draw_viewports_first: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 512 } else { r_plot_layout_flags & !512 }, "PlotSettings.draw_viewports_first: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.draw_viewports_first: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.draw_viewports_first: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.draw_viewports_first: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.draw_viewports_first: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.draw_viewports_first: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.draw_viewports_first: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.draw_viewports_first: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.draw_viewports_first: setter changes print_line_weights");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.draw_viewports_first: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.draw_viewports_first: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.draw_viewports_first: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.draw_viewports_first: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.draw_viewports_first: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.model_type: getter does not reflect the stored bit");
      x.set_model_type(b);
      sx::check(x.model_type() == b, "PlotSettings.model_type: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 1024 } else { r_plot_layout_flags & !1024 }, "PlotSettings.model_type: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.model_type: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.model_type: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.model_type: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.model_type: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.model_type: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.model_type: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.model_type: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.model_type: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.model_type: setter changes draw_viewports_first");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.model_type: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.model_type: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.model_type: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.model_type: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.update_paper: getter does not reflect the stored bit");
      x.set_update_paper(b);
      sx::check(x.update_paper() == b, "PlotSettings.update_paper: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 2048 } else { r_plot_layout_flags & !2048 }, "PlotSettings.update_paper: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.update_paper: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.update_paper: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.update_paper: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.update_paper: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.update_paper: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.update_paper: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.update_paper: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.update_paper: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.update_paper: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.update_paper: setter changes model_type");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.update_paper: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.update_paper: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.update_paper: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.zoom_to_paper_on_update: getter does not reflect the stored bit");
      x.set_zoom_to_paper_on_update(b);
      sx::check(x.zoom_to_paper_on_update() == b, "PlotSettings.zoom_to_paper_on_update: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 4096 } else { r_plot_layout_flags & !4096 }, "PlotSettings.zoom_to_paper_on_update: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes update_paper");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes initializing");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.zoom_to_paper_on_update: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.initializing: getter does not reflect the stored bit");
      x.set_initializing(b);
      sx::check(x.initializing() == b, "PlotSettings.initializing: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 8192 } else { r_plot_layout_flags & !8192 }, "PlotSettings.initializing: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.initializing: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.initializing: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.initializing: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.initializing: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.initializing: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.initializing: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.initializing: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.initializing: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.initializing: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.initializing: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.initializing: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.initializing: setter changes zoom_to_paper_on_update");
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.initializing: setter changes prev_plot_init");
    }
    { let mut x = PlotSettings::default();
      let r_plot_layout_flags = sx::i32(); x.plot_layout_flags = r_plot_layout_flags;
      let b = sx::bool_();
      sx::check(x.prev_plot_init() == (r_plot_layout_flags & 16384 != 0), "PlotSettings.prev_plot_init: getter does not reflect the stored bit");
      x.set_prev_plot_init(b);
      sx::check(x.prev_plot_init() == b, "PlotSettings.prev_plot_init: getter does not return what was set");
      sx::check(x.plot_layout_flags == if b { r_plot_layout_flags | 16384 } else { r_plot_layout_flags & !16384 }, "PlotSettings.prev_plot_init: setter changes other bits");
      sx::check(x.plot_viewport_borders() == (r_plot_layout_flags & 1 != 0), "PlotSettings.prev_plot_init: setter changes plot_viewport_borders");
      sx::check(x.show_plot_styles() == (r_plot_layout_flags & 2 != 0), "PlotSettings.prev_plot_init: setter changes show_plot_styles");
      sx::check(x.plot_centered() == (r_plot_layout_flags & 4 != 0), "PlotSettings.prev_plot_init: setter changes plot_centered");
      sx::check(x.plot_hidden() == (r_plot_layout_flags & 8 != 0), "PlotSettings.prev_plot_init: setter changes plot_hidden");
      sx::check(x.use_standard_scale() == (r_plot_layout_flags & 16 != 0), "PlotSettings.prev_plot_init: setter changes use_standard_scale");
      sx::check(x.plot_plot_styles() == (r_plot_layout_flags & 32 != 0), "PlotSettings.prev_plot_init: setter changes plot_plot_styles");
      sx::check(x.scale_line_weights() == (r_plot_layout_flags & 64 != 0), "PlotSettings.prev_plot_init: setter changes scale_line_weights");
      sx::check(x.print_line_weights() == (r_plot_layout_flags & 128 != 0), "PlotSettings.prev_plot_init: setter changes print_line_weights");
      sx::check(x.draw_viewports_first() == (r_plot_layout_flags & 512 != 0), "PlotSettings.prev_plot_init: setter changes draw_viewports_first");
      sx::check(x.model_type() == (r_plot_layout_flags & 1024 != 0), "PlotSettings.prev_plot_init: setter changes model_type");
      sx::check(x.update_paper() == (r_plot_layout_flags & 2048 != 0), "PlotSettings.prev_plot_init: setter changes update_paper");
      sx::check(x.zoom_to_paper_on_update() == (r_plot_layout_flags & 4096 != 0), "PlotSettings.prev_plot_init: setter changes zoom_to_paper_on_update");
      sx::check(x.initializing() == (r_plot_layout_flags & 8192 != 0), "PlotSettings.prev_plot_init: setter changes initializing");
    }
}
fn f_Header() {
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.end_point_snap: getter does not reflect the stored bit");
      x.set_end_point_snap(b);
      sx::check(x.end_point_snap() == b, "Header.end_point_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 1 } else { r_object_snap_flags & !1 }, "Header.end_point_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.end_point_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.end_point_snap: setter changes other bits");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.end_point_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.end_point_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.end_point_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.end_point_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.end_point_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.end_point_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.end_point_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.end_point_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.end_point_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.end_point_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.end_point_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.end_point_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.end_point_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.end_point_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.end_point_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.end_point_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.end_point_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.end_point_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.end_point_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.end_point_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.end_point_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.end_point_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.end_point_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.mid_point_snap: getter does not reflect the stored bit");
      x.set_mid_point_snap(b);
      sx::check(x.mid_point_snap() == b, "Header.mid_point_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 2 } else { r_object_snap_flags & !2 }, "Header.mid_point_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.mid_point_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.mid_point_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.mid_point_snap: setter changes end_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.mid_point_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.mid_point_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.mid_point_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.mid_point_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.mid_point_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.mid_point_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.mid_point_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.mid_point_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.mid_point_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.mid_point_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.mid_point_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.mid_point_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.mid_point_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.mid_point_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.mid_point_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.mid_point_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.mid_point_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.mid_point_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.mid_point_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.mid_point_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.mid_point_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.mid_point_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.center_snap: getter does not reflect the stored bit");
      x.set_center_snap(b);
      sx::check(x.center_snap() == b, "Header.center_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 4 } else { r_object_snap_flags & !4 }, "Header.center_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.center_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.center_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.center_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.center_snap: setter changes mid_point_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.center_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.center_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.center_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.center_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.center_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.center_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.center_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.center_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.center_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.center_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.center_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.center_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.center_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.center_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.center_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.center_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.center_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.center_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.center_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.center_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.center_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.node_snap: getter does not reflect the stored bit");
      x.set_node_snap(b);
      sx::check(x.node_snap() == b, "Header.node_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 8 } else { r_object_snap_flags & !8 }, "Header.node_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.node_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.node_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.node_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.node_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.node_snap: setter changes center_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.node_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.node_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.node_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.node_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.node_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.node_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.node_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.node_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.node_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.node_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.node_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.node_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.node_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.node_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.node_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.node_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.node_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.node_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.node_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.node_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.quadrant_snap: getter does not reflect the stored bit");
      x.set_quadrant_snap(b);
      sx::check(x.quadrant_snap() == b, "Header.quadrant_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 16 } else { r_object_snap_flags & !16 }, "Header.quadrant_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.quadrant_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.quadrant_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.quadrant_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.quadrant_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.quadrant_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.quadrant_snap: setter changes node_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.quadrant_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.quadrant_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.quadrant_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.quadrant_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.quadrant_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.quadrant_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.quadrant_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.quadrant_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.quadrant_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.quadrant_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.quadrant_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.quadrant_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.quadrant_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.quadrant_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.quadrant_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.quadrant_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.quadrant_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.quadrant_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.quadrant_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.intersection_snap: getter does not reflect the stored bit");
      x.set_intersection_snap(b);
      sx::check(x.intersection_snap() == b, "Header.intersection_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 32 } else { r_object_snap_flags & !32 }, "Header.intersection_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.intersection_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.intersection_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.intersection_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.intersection_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.intersection_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.intersection_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.intersection_snap: setter changes quadrant_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.intersection_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.intersection_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.intersection_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.intersection_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.intersection_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.intersection_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.intersection_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.intersection_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.intersection_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.intersection_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.intersection_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.intersection_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.intersection_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.intersection_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.intersection_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.intersection_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.intersection_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.intersection_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.insertion_snap: getter does not reflect the stored bit");
      x.set_insertion_snap(b);
      sx::check(x.insertion_snap() == b, "Header.insertion_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 64 } else { r_object_snap_flags & !64 }, "Header.insertion_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.insertion_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.insertion_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.insertion_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.insertion_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.insertion_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.insertion_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.insertion_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.insertion_snap: setter changes intersection_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.insertion_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.insertion_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.insertion_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.insertion_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.insertion_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.insertion_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.insertion_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.insertion_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.insertion_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.insertion_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.insertion_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.insertion_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.insertion_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.insertion_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.insertion_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.insertion_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.insertion_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.perpendicular_snap: getter does not reflect the stored bit");
      x.set_perpendicular_snap(b);
      sx::check(x.perpendicular_snap() == b, "Header.perpendicular_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 128 } else { r_object_snap_flags & !128 }, "Header.perpendicular_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.perpendicular_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.perpendicular_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.perpendicular_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.perpendicular_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.perpendicular_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.perpendicular_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.perpendicular_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.perpendicular_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.perpendicular_snap: setter changes insertion_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.perpendicular_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.perpendicular_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.perpendicular_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.perpendicular_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.perpendicular_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.perpendicular_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.perpendicular_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.perpendicular_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.perpendicular_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.perpendicular_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.tangent_snap: getter does not reflect the stored bit");
      x.set_tangent_snap(b);
      sx::check(x.tangent_snap() == b, "Header.tangent_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 256 } else { r_object_snap_flags & !256 }, "Header.tangent_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.tangent_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.tangent_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.tangent_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.tangent_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.tangent_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.tangent_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.tangent_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.tangent_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.tangent_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.tangent_snap: setter changes perpendicular_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.tangent_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.tangent_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.tangent_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.tangent_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.tangent_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.tangent_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.tangent_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.tangent_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.tangent_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.tangent_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.tangent_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.tangent_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.tangent_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.tangent_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.tangent_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.nearest_snap: getter does not reflect the stored bit");
      x.set_nearest_snap(b);
      sx::check(x.nearest_snap() == b, "Header.nearest_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 512 } else { r_object_snap_flags & !512 }, "Header.nearest_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.nearest_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.nearest_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.nearest_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.nearest_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.nearest_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.nearest_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.nearest_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.nearest_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.nearest_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.nearest_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.nearest_snap: setter changes tangent_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.nearest_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.nearest_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.nearest_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.nearest_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.nearest_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.nearest_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.nearest_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.nearest_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.nearest_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.nearest_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.nearest_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.nearest_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.nearest_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.nearest_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.apparent_intersection_snap: getter does not reflect the stored bit");
      x.set_apparent_intersection_snap(b);
      sx::check(x.apparent_intersection_snap() == b, "Header.apparent_intersection_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 2048 } else { r_object_snap_flags & !2048 }, "Header.apparent_intersection_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.apparent_intersection_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.apparent_intersection_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.apparent_intersection_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.apparent_intersection_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.apparent_intersection_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.apparent_intersection_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.apparent_intersection_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.apparent_intersection_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.apparent_intersection_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.apparent_intersection_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.apparent_intersection_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.apparent_intersection_snap: setter changes nearest_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.apparent_intersection_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.apparent_intersection_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.apparent_intersection_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.apparent_intersection_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.apparent_intersection_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.apparent_intersection_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.apparent_intersection_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.extension_snap: getter does not reflect the stored bit");
      x.set_extension_snap(b);
      sx::check(x.extension_snap() == b, "Header.extension_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 4096 } else { r_object_snap_flags & !4096 }, "Header.extension_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.extension_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.extension_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.extension_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.extension_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.extension_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.extension_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.extension_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.extension_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.extension_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.extension_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.extension_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.extension_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.extension_snap: setter changes apparent_intersection_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.extension_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.extension_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.extension_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.extension_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.extension_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.extension_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.extension_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.extension_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.extension_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.extension_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.extension_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.extension_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.parallel_snap: getter does not reflect the stored bit");
      x.set_parallel_snap(b);
      sx::check(x.parallel_snap() == b, "Header.parallel_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == if b { r_object_snap_flags | 8192 } else { r_object_snap_flags & !8192 }, "Header.parallel_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.parallel_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.parallel_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.parallel_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.parallel_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.parallel_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.parallel_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.parallel_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.parallel_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.parallel_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.parallel_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.parallel_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.parallel_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.parallel_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.parallel_snap: setter changes extension_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.parallel_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.parallel_snap: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.parallel_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.parallel_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.parallel_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.parallel_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.parallel_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.parallel_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.parallel_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.parallel_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.parallel_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_object_selection: getter does not reflect the stored bit");
      x.set_sort_objects_for_object_selection(b);
      sx::check(x.sort_objects_for_object_selection() == b, "Header.sort_objects_for_object_selection: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_object_selection: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 1 } else { r_object_sorting_methods_flags & !1 }, "Header.sort_objects_for_object_selection: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_object_selection: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_object_selection: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_object_selection: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_object_selection: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_object_selection: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_object_selection: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_object_selection: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_object_selection: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_object_selection: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_object_selection: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_object_selection: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_object_selection: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_object_selection: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_object_selection: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_object_selection: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_object_selection: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_object_selection: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_object_selection: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_object_selection: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_object_snap: getter does not reflect the stored bit");
      x.set_sort_objects_for_object_snap(b);
      sx::check(x.sort_objects_for_object_snap() == b, "Header.sort_objects_for_object_snap: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_object_snap: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 2 } else { r_object_sorting_methods_flags & !2 }, "Header.sort_objects_for_object_snap: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_object_snap: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_object_snap: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_object_snap: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_object_snap: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_object_snap: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_object_snap: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_object_snap: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_object_snap: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_object_snap: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_object_snap: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_object_snap: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_object_snap: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_object_snap: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_object_snap: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_object_snap: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_object_snap: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_object_snap: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_object_snap: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_object_snap: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_redraw: getter does not reflect the stored bit");
      x.set_sort_objects_for_redraw(b);
      sx::check(x.sort_objects_for_redraw() == b, "Header.sort_objects_for_redraw: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_redraw: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 4 } else { r_object_sorting_methods_flags & !4 }, "Header.sort_objects_for_redraw: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_redraw: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_redraw: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_redraw: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_redraw: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_redraw: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_redraw: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_redraw: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_redraw: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_redraw: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_redraw: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_redraw: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_redraw: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_redraw: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_redraw: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_redraw: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_redraw: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_redraw: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_redraw: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_redraw: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_mslide: getter does not reflect the stored bit");
      x.set_sort_objects_for_mslide(b);
      sx::check(x.sort_objects_for_mslide() == b, "Header.sort_objects_for_mslide: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_mslide: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 8 } else { r_object_sorting_methods_flags & !8 }, "Header.sort_objects_for_mslide: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_mslide: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_mslide: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_mslide: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_mslide: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_mslide: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_mslide: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_mslide: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_mslide: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_mslide: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_mslide: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_mslide: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_mslide: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_mslide: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_mslide: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_mslide: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_mslide: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_mslide: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_mslide: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_mslide: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_regen: getter does not reflect the stored bit");
      x.set_sort_objects_for_regen(b);
      sx::check(x.sort_objects_for_regen() == b, "Header.sort_objects_for_regen: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_regen: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 16 } else { r_object_sorting_methods_flags & !16 }, "Header.sort_objects_for_regen: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_regen: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_regen: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_regen: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_regen: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_regen: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_regen: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_regen: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_regen: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_regen: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_regen: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_regen: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_regen: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_regen: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_regen: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_regen: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_regen: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_regen: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_regen: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_regen: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_plotting: getter does not reflect the stored bit");
      x.set_sort_objects_for_plotting(b);
      sx::check(x.sort_objects_for_plotting() == b, "Header.sort_objects_for_plotting: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_plotting: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 32 } else { r_object_sorting_methods_flags & !32 }, "Header.sort_objects_for_plotting: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_plotting: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_plotting: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_plotting: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_plotting: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_plotting: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_plotting: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_plotting: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_plotting: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_plotting: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_plotting: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_plotting: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_plotting: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_plotting: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_plotting: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_plotting: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_plotting: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_plotting: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_plotting: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_plotting: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.sort_objects_for_post_script_output: getter does not reflect the stored bit");
      x.set_sort_objects_for_post_script_output(b);
      sx::check(x.sort_objects_for_post_script_output() == b, "Header.sort_objects_for_post_script_output: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.sort_objects_for_post_script_output: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == if b { r_object_sorting_methods_flags | 64 } else { r_object_sorting_methods_flags & !64 }, "Header.sort_objects_for_post_script_output: setter changes other bits");
      sx::check(x.loft_flags == r_loft_flags, "Header.sort_objects_for_post_script_output: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.sort_objects_for_post_script_output: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.sort_objects_for_post_script_output: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.sort_objects_for_post_script_output: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.sort_objects_for_post_script_output: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.sort_objects_for_post_script_output: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.sort_objects_for_post_script_output: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.sort_objects_for_post_script_output: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.sort_objects_for_post_script_output: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.sort_objects_for_post_script_output: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.sort_objects_for_post_script_output: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.sort_objects_for_post_script_output: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.sort_objects_for_post_script_output: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.sort_objects_for_post_script_output: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.sort_objects_for_post_script_output: setter changes sort_objects_for_plotting");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.sort_objects_for_post_script_output: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.sort_objects_for_post_script_output: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.sort_objects_for_post_script_output: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.sort_objects_for_post_script_output: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.no_twist: getter does not reflect the stored bit");
      x.set_no_twist(b);
      sx::check(x.no_twist() == b, "Header.no_twist: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.no_twist: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.no_twist: setter changes other bits");
      sx::check(x.loft_flags == if b { r_loft_flags | 1 } else { r_loft_flags & !1 }, "Header.no_twist: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.no_twist: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.no_twist: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.no_twist: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.no_twist: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.no_twist: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.no_twist: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.no_twist: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.no_twist: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.no_twist: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.no_twist: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.no_twist: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.no_twist: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.no_twist: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.no_twist: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.no_twist: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.no_twist: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.no_twist: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.no_twist: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.no_twist: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.no_twist: setter changes sort_objects_for_post_script_output");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.no_twist: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.no_twist: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.no_twist: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.align_direction: getter does not reflect the stored bit");
      x.set_align_direction(b);
      sx::check(x.align_direction() == b, "Header.align_direction: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.align_direction: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.align_direction: setter changes other bits");
      sx::check(x.loft_flags == if b { r_loft_flags | 2 } else { r_loft_flags & !2 }, "Header.align_direction: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.align_direction: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.align_direction: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.align_direction: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.align_direction: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.align_direction: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.align_direction: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.align_direction: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.align_direction: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.align_direction: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.align_direction: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.align_direction: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.align_direction: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.align_direction: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.align_direction: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.align_direction: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.align_direction: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.align_direction: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.align_direction: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.align_direction: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.align_direction: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.align_direction: setter changes no_twist");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.align_direction: setter changes simplify");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.align_direction: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.simplify: getter does not reflect the stored bit");
      x.set_simplify(b);
      sx::check(x.simplify() == b, "Header.simplify: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.simplify: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.simplify: setter changes other bits");
      sx::check(x.loft_flags == if b { r_loft_flags | 4 } else { r_loft_flags & !4 }, "Header.simplify: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.simplify: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.simplify: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.simplify: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.simplify: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.simplify: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.simplify: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.simplify: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.simplify: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.simplify: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.simplify: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.simplify: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.simplify: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.simplify: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.simplify: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.simplify: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.simplify: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.simplify: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.simplify: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.simplify: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.simplify: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.simplify: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.simplify: setter changes align_direction");
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.simplify: setter changes close");
    }
    { let mut x = Header::default();
      let r_object_snap_flags = sx::i32(); x.object_snap_flags = r_object_snap_flags;
      let r_object_sorting_methods_flags = sx::i32(); x.object_sorting_methods_flags = r_object_sorting_methods_flags;
      let r_loft_flags = sx::i32(); x.loft_flags = r_loft_flags;
      let b = sx::bool_();
      sx::check(x.close() == (r_loft_flags & 8 != 0), "Header.close: getter does not reflect the stored bit");
      x.set_close(b);
      sx::check(x.close() == b, "Header.close: getter does not return what was set");
      sx::check(x.object_snap_flags == r_object_snap_flags, "Header.close: setter changes other bits");
      sx::check(x.object_sorting_methods_flags == r_object_sorting_methods_flags, "Header.close: setter changes other bits");
      sx::check(x.loft_flags == if b { r_loft_flags | 8 } else { r_loft_flags & !8 }, "Header.close: setter changes other bits");
      sx::check(x.end_point_snap() == (r_object_snap_flags & 1 != 0), "Header.close: setter changes end_point_snap");
      sx::check(x.mid_point_snap() == (r_object_snap_flags & 2 != 0), "Header.close: setter changes mid_point_snap");
      sx::check(x.center_snap() == (r_object_snap_flags & 4 != 0), "Header.close: setter changes center_snap");
      sx::check(x.node_snap() == (r_object_snap_flags & 8 != 0), "Header.close: setter changes node_snap");
      sx::check(x.quadrant_snap() == (r_object_snap_flags & 16 != 0), "Header.close: setter changes quadrant_snap");
      sx::check(x.intersection_snap() == (r_object_snap_flags & 32 != 0), "Header.close: setter changes intersection_snap");
      sx::check(x.insertion_snap() == (r_object_snap_flags & 64 != 0), "Header.close: setter changes insertion_snap");
      sx::check(x.perpendicular_snap() == (r_object_snap_flags & 128 != 0), "Header.close: setter changes perpendicular_snap");
      sx::check(x.tangent_snap() == (r_object_snap_flags & 256 != 0), "Header.close: setter changes tangent_snap");
      sx::check(x.nearest_snap() == (r_object_snap_flags & 512 != 0), "Header.close: setter changes nearest_snap");
      sx::check(x.apparent_intersection_snap() == (r_object_snap_flags & 2048 != 0), "Header.close: setter changes apparent_intersection_snap");
      sx::check(x.extension_snap() == (r_object_snap_flags & 4096 != 0), "Header.close: setter changes extension_snap");
      sx::check(x.parallel_snap() == (r_object_snap_flags & 8192 != 0), "Header.close: setter changes parallel_snap");
      sx::check(x.sort_objects_for_object_selection() == (r_object_sorting_methods_flags & 1 != 0), "Header.close: setter changes sort_objects_for_object_selection");
      sx::check(x.sort_objects_for_object_snap() == (r_object_sorting_methods_flags & 2 != 0), "Header.close: setter changes sort_objects_for_object_snap");
      sx::check(x.sort_objects_for_redraw() == (r_object_sorting_methods_flags & 4 != 0), "Header.close: setter changes sort_objects_for_redraw");
      sx::check(x.sort_objects_for_mslide() == (r_object_sorting_methods_flags & 8 != 0), "Header.close: setter changes sort_objects_for_mslide");
      sx::check(x.sort_objects_for_regen() == (r_object_sorting_methods_flags & 16 != 0), "Header.close: setter changes sort_objects_for_regen");
      sx::check(x.sort_objects_for_plotting() == (r_object_sorting_methods_flags & 32 != 0), "Header.close: setter changes sort_objects_for_plotting");
      sx::check(x.sort_objects_for_post_script_output() == (r_object_sorting_methods_flags & 64 != 0), "Header.close: setter changes sort_objects_for_post_script_output");
      sx::check(x.no_twist() == (r_loft_flags & 1 != 0), "Header.close: setter changes no_twist");
      sx::check(x.align_direction() == (r_loft_flags & 2 != 0), "Header.close: setter changes align_direction");
      sx::check(x.simplify() == (r_loft_flags & 4 != 0), "Header.close: setter changes simplify");
    }
}
fn f_Block() {
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_anonymous: getter does not reflect the stored bit");
      x.set_is_anonymous(b);
      sx::check(x.is_anonymous() == b, "Block.is_anonymous: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 1 } else { r_flags & !1 }, "Block.is_anonymous: setter changes other bits");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_anonymous: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_anonymous: setter changes is_xref");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_anonymous: setter changes is_xref_overlay");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_anonymous: setter changes is_externally_dependent");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_anonymous: setter changes is_referenced_external_reference");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_anonymous: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.has_non_consistent_attribute_definitions: getter does not reflect the stored bit");
      x.set_has_non_consistent_attribute_definitions(b);
      sx::check(x.has_non_consistent_attribute_definitions() == b, "Block.has_non_consistent_attribute_definitions: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 2 } else { r_flags & !2 }, "Block.has_non_consistent_attribute_definitions: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_anonymous");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_xref");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_xref_overlay");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_externally_dependent");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_referenced_external_reference");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.has_non_consistent_attribute_definitions: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_xref: getter does not reflect the stored bit");
      x.set_is_xref(b);
      sx::check(x.is_xref() == b, "Block.is_xref: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 4 } else { r_flags & !4 }, "Block.is_xref: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_xref: setter changes is_anonymous");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_xref: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_xref: setter changes is_xref_overlay");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_xref: setter changes is_externally_dependent");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_xref: setter changes is_referenced_external_reference");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_xref: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_xref_overlay: getter does not reflect the stored bit");
      x.set_is_xref_overlay(b);
      sx::check(x.is_xref_overlay() == b, "Block.is_xref_overlay: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 8 } else { r_flags & !8 }, "Block.is_xref_overlay: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_xref_overlay: setter changes is_anonymous");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_xref_overlay: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_xref_overlay: setter changes is_xref");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_xref_overlay: setter changes is_externally_dependent");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_xref_overlay: setter changes is_referenced_external_reference");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_xref_overlay: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_externally_dependent: getter does not reflect the stored bit");
      x.set_is_externally_dependent(b);
      sx::check(x.is_externally_dependent() == b, "Block.is_externally_dependent: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 16 } else { r_flags & !16 }, "Block.is_externally_dependent: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_externally_dependent: setter changes is_anonymous");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_externally_dependent: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_externally_dependent: setter changes is_xref");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_externally_dependent: setter changes is_xref_overlay");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_externally_dependent: setter changes is_referenced_external_reference");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_externally_dependent: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_referenced_external_reference: getter does not reflect the stored bit");
      x.set_is_referenced_external_reference(b);
      sx::check(x.is_referenced_external_reference() == b, "Block.is_referenced_external_reference: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 32 } else { r_flags & !32 }, "Block.is_referenced_external_reference: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_referenced_external_reference: setter changes is_anonymous");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_referenced_external_reference: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_referenced_external_reference: setter changes is_xref");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_referenced_external_reference: setter changes is_xref_overlay");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_referenced_external_reference: setter changes is_externally_dependent");
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_referenced_external_reference: setter changes is_resolved_external_reference");
    }
    { let mut x = Block::default();
      let r_flags = sx::i32(); x.flags = r_flags;
      let b = sx::bool_();
      sx::check(x.is_resolved_external_reference() == (r_flags & 64 != 0), "Block.is_resolved_external_reference: getter does not reflect the stored bit");
      x.set_is_resolved_external_reference(b);
      sx::check(x.is_resolved_external_reference() == b, "Block.is_resolved_external_reference: getter does not return what was set");
      sx::check(x.flags == if b { r_flags | 64 } else { r_flags & !64 }, "Block.is_resolved_external_reference: setter changes other bits");
      sx::check(x.is_anonymous() == (r_flags & 1 != 0), "Block.is_resolved_external_reference: setter changes is_anonymous");
      sx::check(x.has_non_consistent_attribute_definitions() == (r_flags & 2 != 0), "Block.is_resolved_external_reference: setter changes has_non_consistent_attribute_definitions");
      sx::check(x.is_xref() == (r_flags & 4 != 0), "Block.is_resolved_external_reference: setter changes is_xref");
      sx::check(x.is_xref_overlay() == (r_flags & 8 != 0), "Block.is_resolved_external_reference: setter changes is_xref_overlay");
      sx::check(x.is_externally_dependent() == (r_flags & 16 != 0), "Block.is_resolved_external_reference: setter changes is_externally_dependent");
      sx::check(x.is_referenced_external_reference() == (r_flags & 32 != 0), "Block.is_resolved_external_reference: setter changes is_referenced_external_reference");
    }
}
fn f_Class() {
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_erase_allowed: getter does not reflect the stored bit");
      x.set_is_erase_allowed(b);
      sx::check(x.is_erase_allowed() == b, "Class.is_erase_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 1 } else { r_proxy_capability_flags & !1 }, "Class.is_erase_allowed: setter changes other bits");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_erase_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_erase_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_erase_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_erase_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_erase_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_erase_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_erase_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_erase_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_erase_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_erase_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_transform_allowed: getter does not reflect the stored bit");
      x.set_is_transform_allowed(b);
      sx::check(x.is_transform_allowed() == b, "Class.is_transform_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 2 } else { r_proxy_capability_flags & !2 }, "Class.is_transform_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_transform_allowed: setter changes is_erase_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_transform_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_transform_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_transform_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_transform_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_transform_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_transform_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_transform_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_transform_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_transform_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_color_change_allowed: getter does not reflect the stored bit");
      x.set_is_color_change_allowed(b);
      sx::check(x.is_color_change_allowed() == b, "Class.is_color_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 4 } else { r_proxy_capability_flags & !4 }, "Class.is_color_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_color_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_color_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_color_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_color_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_color_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_color_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_color_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_color_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_color_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_color_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_layer_change_allowed: getter does not reflect the stored bit");
      x.set_is_layer_change_allowed(b);
      sx::check(x.is_layer_change_allowed() == b, "Class.is_layer_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 8 } else { r_proxy_capability_flags & !8 }, "Class.is_layer_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_layer_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_layer_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_layer_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_layer_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_layer_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_layer_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_layer_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_layer_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_layer_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_layer_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_line_type_change_allowed: getter does not reflect the stored bit");
      x.set_is_line_type_change_allowed(b);
      sx::check(x.is_line_type_change_allowed() == b, "Class.is_line_type_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 16 } else { r_proxy_capability_flags & !16 }, "Class.is_line_type_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_line_type_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_line_type_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_line_type_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_line_type_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_line_type_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_line_type_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_line_type_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_line_type_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_line_type_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_line_type_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_line_type_scale_change_allowed: getter does not reflect the stored bit");
      x.set_is_line_type_scale_change_allowed(b);
      sx::check(x.is_line_type_scale_change_allowed() == b, "Class.is_line_type_scale_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 32 } else { r_proxy_capability_flags & !32 }, "Class.is_line_type_scale_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_line_type_scale_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_visibility_change_allowed: getter does not reflect the stored bit");
      x.set_is_visibility_change_allowed(b);
      sx::check(x.is_visibility_change_allowed() == b, "Class.is_visibility_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 64 } else { r_proxy_capability_flags & !64 }, "Class.is_visibility_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_visibility_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_visibility_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_visibility_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_visibility_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_visibility_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_visibility_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_visibility_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_visibility_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_visibility_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_visibility_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_clone_allowed: getter does not reflect the stored bit");
      x.set_is_clone_allowed(b);
      sx::check(x.is_clone_allowed() == b, "Class.is_clone_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 128 } else { r_proxy_capability_flags & !128 }, "Class.is_clone_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_clone_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_clone_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_clone_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_clone_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_clone_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_clone_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_clone_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_clone_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_clone_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_clone_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_lineweight_change_allowed: getter does not reflect the stored bit");
      x.set_is_lineweight_change_allowed(b);
      sx::check(x.is_lineweight_change_allowed() == b, "Class.is_lineweight_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 256 } else { r_proxy_capability_flags & !256 }, "Class.is_lineweight_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_lineweight_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_lineweight_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_lineweight_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_lineweight_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_lineweight_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_lineweight_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_lineweight_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_lineweight_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_lineweight_change_allowed: setter changes is_plot_style_name_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_lineweight_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_plot_style_name_change_allowed: getter does not reflect the stored bit");
      x.set_is_plot_style_name_change_allowed(b);
      sx::check(x.is_plot_style_name_change_allowed() == b, "Class.is_plot_style_name_change_allowed: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 512 } else { r_proxy_capability_flags & !512 }, "Class.is_plot_style_name_change_allowed: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_lineweight_change_allowed");
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_plot_style_name_change_allowed: setter changes is_R13_format_proxy");
    }
    { let mut x = Class::default();
      let r_proxy_capability_flags = sx::i32(); x.proxy_capability_flags = r_proxy_capability_flags;
      let b = sx::bool_();
      sx::check(x.is_R13_format_proxy() == (r_proxy_capability_flags & 32768 != 0), "Class.is_R13_format_proxy: getter does not reflect the stored bit");
      x.set_is_R13_format_proxy(b);
      sx::check(x.is_R13_format_proxy() == b, "Class.is_R13_format_proxy: getter does not return what was set");
      sx::check(x.proxy_capability_flags == if b { r_proxy_capability_flags | 32768 } else { r_proxy_capability_flags & !32768 }, "Class.is_R13_format_proxy: setter changes other bits");
      sx::check(x.is_erase_allowed() == (r_proxy_capability_flags & 1 != 0), "Class.is_R13_format_proxy: setter changes is_erase_allowed");
      sx::check(x.is_transform_allowed() == (r_proxy_capability_flags & 2 != 0), "Class.is_R13_format_proxy: setter changes is_transform_allowed");
      sx::check(x.is_color_change_allowed() == (r_proxy_capability_flags & 4 != 0), "Class.is_R13_format_proxy: setter changes is_color_change_allowed");
      sx::check(x.is_layer_change_allowed() == (r_proxy_capability_flags & 8 != 0), "Class.is_R13_format_proxy: setter changes is_layer_change_allowed");
      sx::check(x.is_line_type_change_allowed() == (r_proxy_capability_flags & 16 != 0), "Class.is_R13_format_proxy: setter changes is_line_type_change_allowed");
      sx::check(x.is_line_type_scale_change_allowed() == (r_proxy_capability_flags & 32 != 0), "Class.is_R13_format_proxy: setter changes is_line_type_scale_change_allowed");
      sx::check(x.is_visibility_change_allowed() == (r_proxy_capability_flags & 64 != 0), "Class.is_R13_format_proxy: setter changes is_visibility_change_allowed");
      sx::check(x.is_clone_allowed() == (r_proxy_capability_flags & 128 != 0), "Class.is_R13_format_proxy: setter changes is_clone_allowed");
      sx::check(x.is_lineweight_change_allowed() == (r_proxy_capability_flags & 256 != 0), "Class.is_R13_format_proxy: setter changes is_lineweight_change_allowed");
      sx::check(x.is_plot_style_name_change_allowed() == (r_proxy_capability_flags & 512 != 0), "Class.is_R13_format_proxy: setter changes is_plot_style_name_change_allowed");
    }
}
pub static TAB: &[fn()] = &[f_Face3D, f_AttributeDefinition, f_Attribute, f_Image, f_LwPolyline, f_MLine, f_Polyline, f_RText, f_Spline, f_Text, f_DgnUnderlay, f_DwfUnderlay, f_PdfUnderlay, f_Vertex, f_Wipeout, f_DimensionAssoc, f_Layout, f_MLineStyle, f_PlotSettings, f_Header, f_Block, f_Class];
