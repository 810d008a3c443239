## crate::one::property_set::table_node::parse
$1 = one::property_set::note_tag_container::Data::parse(p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::TableNode)
$3 = one::property::simple::parse_u32(PropertyType::ColumnCount, p0)
$4 = one::property::simple::parse_bool(PropertyType::TableBordersVisible, p0)
$5 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentSelf, p0)
$6 = one::property::simple::parse_u32(PropertyType::RowCount, p0)
$7 = one::property::simple::parse_vec(PropertyType::TableColumnsLocked, p0)
$8 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$9 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$10 = one::property::layout_alignment::LayoutAlignment::parse(PropertyType::LayoutAlignmentInParent, p0)
$11 = one::property::simple::parse_vec(PropertyType::TableColumnWidths, p0)
$12 = if !is1($7.ok): vecnil
  else skip[$7.ok.some, 1]
$13 = if !is1($11.ok): vecnil
  else gen[chunks_exact[skip[$11.ok.some, 1], 4], true, fbits[f32, u32{idx[elb[1], 0][0:8]|idx[elb[1], 1][0:8]<<8|idx[elb[1], 2][0:8]<<16|idx[elb[1], 3][0:8]<<24}], 1]
$14 = if $4.ok.some: true
  else if !is1($4.ok): true
  else false
$15 = if !is1($1.ok): vecnil
  else $1.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if !is1($3.ok): Err(E)
else if !is1($8.ok): Err(E)
else if !is1($9.ok): Err(E)
else if !is1($6.ok): Err(E)
else Ok(table_node::Data{last_modified: $9.ok.some, rows: $8.ok.some, row_count: $6.ok.some, col_count: $3.ok.some, cols_locked: $12, col_widths: $13, borders_visible: $14, layout_alignment_in_parent: $10.ok, layout_alignment_self: $5.ok, note_tags: $15})

