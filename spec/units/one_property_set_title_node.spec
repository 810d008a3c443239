## crate::one::property_set::title_node::parse
$1 = one::property_set::assert_property_set(p0, PropertySetId::TitleNode)
$2 = one::property::simple::parse_f32(PropertyType::OffsetFromParentHoriz, p0)
$3 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$4 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$5 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$6 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$7 = one::property::simple::parse_f32(PropertyType::OffsetFromParentVert, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if !is1($7.ok): Err(E)
else if !is1($4.ok): Err(E)
else if !is1($5.ok): Err(E)
else if !is1($2.ok): Err(E)
else Ok(title_node::Data{last_modified_time: $5.ok.some, children: $4.ok.some, offset_horizontal: $2.ok.some, offset_vertical: $7.ok.some, layout_alignment_in_parent: $6.ok, layout_alignment_self: $3.ok})

