## crate::one::property_set::section_metadata_node::parse
$1 = one::property::simple::parse_string(PropertyType::SectionDisplayName, p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::SectionMetadata)
$3 = one::property::color::Color::parse(PropertyType::SectionColor, p0)
$4 = one::property::simple::parse_u32(PropertyType::SchemaRevisionInOrderToRead, p0)
$5 = one::property::simple::parse_u32(PropertyType::SchemaRevisionInOrderToWrite, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if !is1($4.ok): Err(E)
else if !is1($5.ok): Err(E)
else Ok(section_metadata_node::Data{schema_revision_in_order_to_read: $4.ok.some, schema_revision_in_order_to_write: $5.ok.some, display_name: $1.ok, color: $3.ok})

