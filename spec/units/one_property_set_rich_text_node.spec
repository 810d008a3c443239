## crate::one::property_set::rich_text_node::parse
$1 = one::property::paragraph_alignment::ParagraphAlignment::parse(p0)
$2 = one::property_set::note_tag_container::Data::parse(p0)
$3 = one::property::simple::parse_bool(PropertyType::IsBoilerText, p0)
$4 = one::property::simple::parse_bool(PropertyType::IsTitleDate, p0)
$5 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::TextRunDataObject, p0)
$6 = one::property::simple::parse_f32(PropertyType::ParagraphSpaceBefore, p0)
$7 = one::property::object_reference::ObjectReference::parse(PropertyType::ParagraphStyle, p0)
$8 = one::property::simple::parse_bool(PropertyType::LayoutTightLayout, p0)
$9 = one::property::simple::parse_ascii(PropertyType::TextExtendedAscii, p0)
$10 = one::property::simple::parse_bool(PropertyType::ReadingOrderRtl, p0)
$11 = one::property::simple::parse_f32(PropertyType::ParagraphLineSpacingExact, p0)
$12 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::TextRunFormatting, p0)
$13 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$14 = one::property::simple::parse_bool(PropertyType::IsTitleText, p0)
$15 = one::property::simple::parse_vec_u32(PropertyType::TextRunIndex, p0)
$16 = one::property::simple::parse_string(PropertyType::RichEditTextUnicode, p0)
$17 = one::property_set::assert_property_set(p0, PropertySetId::RichTextNode)
$18 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$19 = one::property::simple::parse_f32(PropertyType::ParagraphSpaceAfter, p0)
$20 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$21 = one::property::simple::parse_bool(PropertyType::IsTitleTime, p0)
$22 = one::property::simple::parse_u16(PropertyType::RichEditTextLangId, p0)
$23 = if !$8.ok.some: false
  else is1($8.ok)
$24 = if !is1($12.ok): vecnil
  else $12.ok.some
$25 = if !is1($15.ok): vecnil
  else $15.ok.some
$26 = if !is1($5.ok): vecnil
  else $5.ok.some
$27 = if !is1($6.ok): float[0.0]
  else $6.ok.some
$28 = if !is1($19.ok): float[0.0]
  else $19.ok.some
$29 = if !is1($1.ok): ParagraphAlignment::Left
  else $1.ok.some
$30 = if !is1($16.ok): $9.ok
  else $16.ok
$31 = if !$21.ok.some: false
  else is1($21.ok)
$32 = if !$3.ok.some: false
  else is1($3.ok)
$33 = if !$4.ok.some: false
  else is1($4.ok)
$34 = if !$14.ok.some: false
  else is1($14.ok)
$35 = if !is1($22.ok): None
  else Some(u32{$22.ok.some[0:16]})
$36 = if !$10.ok.some: false
  else is1($10.ok)
$37 = if !is1($2.ok): vecnil
  else $2.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if !is1($9): 
  if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else if is1($13): Err(E)
  else if is1($14): Err(E)
  else if is1($15): Err(E)
  else if is1($16): Err(E)
  else if is1($17): Err(E)
  else if is1($18): Err(E)
  else if is1($19): Err(E)
  else if is1($20): Err(E)
  else if is1($21): Err(E)
  else if is1($22): Err(E)
  else if !is1($7.ok): Err(E)
  else if !is1($18.ok): Err(E)
  else Ok(rich_text_node::Data{last_modified_time: $18.ok.some, tight_layout: $23, text_run_formatting: $24, text_run_indices: $25, text_run_data_object: $26, paragraph_style: $7.ok.some, paragraph_space_before: $27, paragraph_space_after: $28, paragraph_line_spacing_exact: $11.ok, paragraph_alignment: $29, text: $30, is_title_time: $31, is_boiler_text: $32, is_title_date: $33, is_title_text: $34, layout_alignment_in_parent: $20.ok, layout_alignment_self: $13.ok, language_code: $35, rtl: $36, note_tags: $37})
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if is1($20): Err(E)
else if is1($21): Err(E)
else if is1($22): Err(E)
else if !is1($7.ok): Err(E)
else if !is1($18.ok): Err(E)
else if !is1($16.ok): Err(E)
else Ok(rich_text_node::Data{last_modified_time: $18.ok.some, tight_layout: $23, text_run_formatting: $24, text_run_indices: $25, text_run_data_object: $26, paragraph_style: $7.ok.some, paragraph_space_before: $27, paragraph_space_after: $28, paragraph_line_spacing_exact: $11.ok, paragraph_alignment: $29, text: $30, is_title_time: $31, is_boiler_text: $32, is_title_date: $33, is_title_text: $34, layout_alignment_in_parent: $20.ok, layout_alignment_self: $13.ok, language_code: $35, rtl: $36, note_tags: $37})

