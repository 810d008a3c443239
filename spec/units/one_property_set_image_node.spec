## crate::one::property_set::image_node::parse
$1 = one::property_set::note_tag_container::Data::parse(p0)
$2 = one::property::simple::parse_string(PropertyType::ImageFilename, p0)
$3 = one::property::simple::parse_f32(PropertyType::LayoutMaxWidth, p0)
$4 = one::property::object_reference::ObjectReference::parse(PropertyType::PictureContainer, p0)
$5 = one::property::simple::parse_f32(PropertyType::OffsetFromParentHoriz, p0)
$6 = one::property::simple::parse_f32(PropertyType::PictureHeight, p0)
$7 = one::property::simple::parse_f32(PropertyType::LayoutMaxHeight, p0)
$8 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ContentChildNodes, p0)
$9 = one::property::simple::parse_bool(PropertyType::IsLayoutSizeSetByUser, p0)
$10 = one::property::simple::parse_u32(PropertyType::LanguageId, p0)
$11 = one::property::simple::parse_bool(PropertyType::IsBackground, p0)
$12 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$13 = one::property::simple::parse_f32(PropertyType::PictureWidth, p0)
$14 = one::property::simple::parse_u32(PropertyType::DisplayedPageNumber, p0)
$15 = one::property::simple::parse_string(PropertyType::RichEditTextUnicode, p0)
$16 = one::property_set::assert_property_set(p0, PropertySetId::ImageNode)
$17 = one::property::simple::parse_string(PropertyType::ImageAltText, p0)
$18 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$19 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$20 = one::property::simple::parse_f32(PropertyType::OffsetFromParentVert, p0)
$21 = one::property::simple::parse_string(PropertyType::WzHyperlinkUrl, p0)
$22 = one::property::simple::parse_u16(PropertyType::RichEditTextLangId, p0)
$23 = if !$9.ok.some: false
  else is1($9.ok)
$24 = if !is1($22.ok): None
  else Some(u32{$22.ok.some[0:16]})
$25 = if !is1($1.ok): vecnil
  else $1.ok.some
$26 = if !$11.ok.some: false
  else is1($11.ok)
$27 = if !is1($8.ok): vecnil
  else $8.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if is1($20): Err(E)
else if is1($21): Err(E)
else if is1($22): Err(E)
else Ok(image_node::Data{last_modified: $18.ok, picture_container: $4.ok, layout_max_width: $3.ok, layout_max_height: $7.ok, is_layout_size_set_by_user: $23, language_code: $10.ok, alt_text: $17.ok, layout_alignment_in_parent: $19.ok, layout_alignment_self: $12.ok, image_filename: $2.ok, displayed_page_number: $14.ok, text: $15.ok, text_language_code: $24, picture_width: $13.ok, picture_height: $6.ok, hyperlink_url: $21.ok, note_tags: $25, offset_from_parent_horiz: $5.ok, offset_from_parent_vert: $20.ok, is_background: $26, iframe: $27})

