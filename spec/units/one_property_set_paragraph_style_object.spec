## crate::one::property_set::paragraph_style_object::parse
$1 = one::property::paragraph_alignment::ParagraphAlignment::parse(p0)
$2 = one::property::simple::parse_f32(PropertyType::ParagraphSpaceBefore, p0)
$3 = one::property::simple::parse_bool(PropertyType::MathFormatting, p0)
$4 = one::property::simple::parse_bool(PropertyType::Underline, p0)
$5 = one::property::simple::parse_bool(PropertyType::Italic, p0)
$6 = one::property::simple::parse_bool(PropertyType::Bold, p0)
$7 = one::property::simple::parse_u16(PropertyType::FontSize, p0)
$8 = one::property::simple::parse_string(PropertyType::ParagraphStyleId, p0)
$9 = one::property::simple::parse_u32(PropertyType::LanguageId, p0)
$10 = one::property::simple::parse_f32(PropertyType::ParagraphLineSpacingExact, p0)
$11 = one::property_set::assert_property_set(p0, PropertySetId::ParagraphStyleObject)
$12 = one::property::simple::parse_bool(PropertyType::Superscript, p0)
$13 = one::property::simple::parse_string(PropertyType::Font, p0)
$14 = one::property::simple::parse_bool(PropertyType::HyperlinkProtected, p0)
$15 = one::property::simple::parse_bool(PropertyType::Subscript, p0)
$16 = one::property::simple::parse_bool(PropertyType::Hyperlink, p0)
$17 = one::property::color_ref::ColorRef::parse(PropertyType::FontColor, p0)
$18 = one::property::simple::parse_bool(PropertyType::Hidden, p0)
$19 = one::property::simple::parse_string(PropertyType::NextStyle, p0)
$20 = one::property::simple::parse_bool(PropertyType::Strikethrough, p0)
$21 = one::property::color_ref::ColorRef::parse(PropertyType::Highlight, p0)
$22 = one::property::simple::parse_f32(PropertyType::ParagraphSpaceAfter, p0)
$23 = one::property::charset::Charset::parse(PropertyType::Charset, p0)
$24 = one::property::simple::parse_u32(PropertyType::EmbeddedObjectType, p0)
$25 = one::property::simple::parse_bool(PropertyType::TextRunIsEmbeddedObject, p0)
$26 = if !$6.ok.some: false
  else is1($6.ok)
$27 = if !$5.ok.some: false
  else is1($5.ok)
$28 = if !$4.ok.some: false
  else is1($4.ok)
$29 = if !$20.ok.some: false
  else is1($20.ok)
$30 = if !$12.ok.some: false
  else is1($12.ok)
$31 = if !$15.ok.some: false
  else is1($15.ok)
$32 = if !$3.ok.some: false
  else is1($3.ok)
$33 = if !$16.ok.some: false
  else is1($16.ok)
$34 = if !$14.ok.some: false
  else is1($14.ok)
$35 = if !$18.ok.some: false
  else is1($18.ok)
$36 = if !$25.ok.some: false
  else is1($25.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if is1($20): Err(E)
else if is1($21): Err(E)
else if is1($22): Err(E)
else if is1($23): Err(E)
else if is1($24): Err(E)
else if is1($25): Err(E)
else Ok(paragraph_style_object::Data{charset: $23.ok, bold: $26, italic: $27, underline: $28, strikethrough: $29, superscript: $30, subscript: $31, font: $13.ok, font_size: $7.ok, font_color: $17.ok, highlight: $21.ok, next_style: $19.ok, style_id: $8.ok, paragraph_alignment: $1.ok, paragraph_space_before: $2.ok, paragraph_space_after: $22.ok, paragraph_line_spacing_exact: $10.ok, language_code: $9.ok, math_formatting: $32, hyperlink: $33, hyperlink_protected: $34, hidden: $35, text_run_is_embedded_object: $36, text_run_object_type: $24.ok})

