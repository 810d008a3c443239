## crate::one::property_set::outline_node::parse
$1 = one::property::outline_indent_distance::OutlineIndentDistance::parse(p0)
$2 = one::property::simple::parse_bool(PropertyType::IsTitleDate, p0)
$3 = one::property::simple::parse_bool(PropertyType::Deletable, p0)
$4 = one::property::simple::parse_f32(PropertyType::LayoutOutlineReservedWidth, p0)
$5 = one::property::simple::parse_bool(PropertyType::LayoutTightLayout, p0)
$6 = one::property::simple::parse_f32(PropertyType::LayoutMaxWidth, p0)
$7 = one::property::simple::parse_f32(PropertyType::OffsetFromParentHoriz, p0)
$8 = one::property::simple::parse_f32(PropertyType::LayoutMaxHeight, p0)
$9 = one::property::simple::parse_bool(PropertyType::LayoutTightAlignment, p0)
$10 = one::property::simple::parse_bool(PropertyType::IsLayoutSizeSetByUser, p0)
$11 = one::property::simple::parse_bool(PropertyType::CannotBeSelected, p0)
$12 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$13 = one::property::simple::parse_f32(PropertyType::ListSpacingMu, p0)
$14 = one::property::simple::parse_bool(PropertyType::IsTitleText, p0)
$15 = one::property::simple::parse_f32(PropertyType::LayoutMinimumOutlineWidth, p0)
$16 = one::property::simple::parse_bool(PropertyType::DescendantsCannotBeMoved, p0)
$17 = one::property::simple::parse_u8(PropertyType::OutlineElementChildLevel, p0)
$18 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$19 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$20 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$21 = one::property_set::assert_property_set(p0, PropertySetId::OutlineNode)
$22 = one::property::simple::parse_f32(PropertyType::OffsetFromParentVert, p0)
$23 = one::property::simple::parse_bool(PropertyType::IsReadOnly, p0)
$24 = if !is1($18.ok): vecnil
  else $18.ok.some
$25 = if !$9.ok.some: false
  else is1($9.ok)
$26 = if !$10.ok.some: false
  else is1($10.ok)
$27 = if !$3.ok.some: false
  else is1($3.ok)
$28 = if !$2.ok.some: false
  else is1($2.ok)
$29 = if !$11.ok.some: true
  else if !is1($11.ok): true
  else false
$30 = if !$14.ok.some: false
  else is1($14.ok)
$31 = if !$23.ok.some: false
  else is1($23.ok)
$32 = if !$16.ok.some: false
  else is1($16.ok)
$33 = if !$5.ok.some: false
  else is1($5.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if is1($20): Err(E)
else if is1($21): Err(E)
else if is1($22): Err(E)
else if is1($23): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($17.ok): Err(E)
else if !is1($19.ok): Err(E)
else Ok(outline_node::Data{last_modified: $19.ok.some, children: $24, child_level: $17.ok.some, layout_max_height: $8.ok, layout_max_width: $6.ok, layout_reserved_width: $4.ok, layout_minimum_outline_width: $15.ok, layout_tight_alignment: $25, is_layout_size_set_by_user: $26, offset_from_parent_horiz: $7.ok, offset_from_parent_vert: $22.ok, list_spacing: $13.ok, outline_indent_distance: $1.ok.some, layout_alignment_in_parent: $20.ok, layout_alignment_self: $12.ok, is_deletable: $27, is_title_date: $28, is_selectable: $29, is_title_text: $30, is_read_only: $31, descendants_cannot_be_moved: $32, tight_layout: $33})

