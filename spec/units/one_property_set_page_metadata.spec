## crate::one::property_set::page_metadata::parse
$1 = one::property::time::Timestamp::parse(PropertyType::TopologyCreationTimeStamp, p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::PageMetadata)
$3 = one::property::simple::parse_u32(PropertyType::PageLevel, p0)
$4 = one::property::simple::parse_guid(PropertyType::NotebookManagementEntityGuid, p0)
$5 = one::property::simple::parse_bool(PropertyType::IsDeletedGraphSpaceContent, p0)
$6 = one::property::simple::parse_string(PropertyType::CachedTitleString, p0)
$7 = one::property::simple::parse_u32(PropertyType::SchemaRevisionInOrderToRead, p0)
$8 = one::property::simple::parse_u32(PropertyType::SchemaRevisionInOrderToWrite, p0)
$9 = if !is1($3.ok): 0
  else ($3.ok.some as i32)
$10 = if !$5.ok.some: false
  else is1($5.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($4.ok): Err(E)
else if !is1($6.ok): Err(E)
else Ok(page_metadata::Data{entity_guid: $4.ok.some, cached_title: $6.ok.some, schema_revision_in_order_to_read: $7.ok, schema_revision_in_order_to_write: $8.ok, page_level: $9, created_at: $1.ok.some, is_deleted: $10})

