## crate::one::property_set::table_row_node::parse
$1 = one::property_set::assert_property_set(p0, PropertySetId::TableRowNode)
$2 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$3 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($2.ok): Err(E)
else Ok(table_row_node::Data{last_modified: $3.ok, cells: $2.ok.some})

