## crate::one::property_set::embedded_file_node::parse
$1 = one::property::file_type::FileType::parse(p0)
$2 = one::property_set::note_tag_container::Data::parse(p0)
$3 = one::property_set::assert_property_set(p0, PropertySetId::EmbeddedFileNode)
$4 = one::property::simple::parse_string(PropertyType::EmbeddedFileName, p0)
$5 = one::property::simple::parse_f32(PropertyType::LayoutMaxWidth, p0)
$6 = one::property::object_reference::ObjectReference::parse(PropertyType::PictureContainer, p0)
$7 = one::property::simple::parse_f32(PropertyType::OffsetFromParentHoriz, p0)
$8 = one::property::simple::parse_f32(PropertyType::PictureHeight, p0)
$9 = one::property::simple::parse_f32(PropertyType::LayoutMaxHeight, p0)
$10 = one::property::simple::parse_bool(PropertyType::IsLayoutSizeSetByUser, p0)
$11 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$12 = one::property::simple::parse_f32(PropertyType::PictureWidth, p0)
$13 = one::property::simple::parse_string(PropertyType::RichEditTextUnicode, p0)
$14 = one::property::object_reference::ObjectReference::parse(PropertyType::EmbeddedFileContainer, p0)
$15 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$16 = one::property::simple::parse_string(PropertyType::SourceFilepath, p0)
$17 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$18 = one::property::simple::parse_f32(PropertyType::OffsetFromParentVert, p0)
$19 = one::property::simple::parse_u16(PropertyType::RichEditTextLangId, p0)
$20 = if !$10.ok.some: false
  else is1($10.ok)
$21 = if !is1($19.ok): None
  else Some(u32{$19.ok.some[0:16]})
$22 = if !is1($2.ok): vecnil
  else $2.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if !is1($4.ok): Err(E)
else if !is1($14.ok): Err(E)
else if !is1($15.ok): Err(E)
else Ok(embedded_file_node::Data{last_modified: $15.ok.some, picture_container: $6.ok, layout_max_width: $5.ok, layout_max_height: $9.ok, is_layout_size_set_by_user: $20, text: $13.ok, text_language_code: $21, layout_alignment_in_parent: $17.ok, layout_alignment_self: $11.ok, embedded_file_container: $14.ok.some, embedded_file_name: $4.ok.some, source_path: $16.ok, file_type: $1.ok, picture_width: $12.ok, picture_height: $8.ok, note_tags: $22, offset_from_parent_horiz: $7.ok, offset_from_parent_vert: $18.ok, recording_duration: None})

