## crate::one::property_set::table_cell_node::parse
$1 = one::property::outline_indent_distance::OutlineIndentDistance::parse(p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::TableCellNode)
$3 = one::property::simple::parse_f32(PropertyType::LayoutMaxWidth, p0)
$4 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$5 = one::property::color::Color::parse(PropertyType::CellBackgroundColor, p0)
$6 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($4.ok): Err(E)
else Ok(table_cell_node::Data{last_modified: $6.ok, contents: $4.ok.some, layout_max_width: $3.ok, outline_indent_distance: $1.ok.some, background_color: $5.ok})

