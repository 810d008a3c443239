## crate::one::property_set::page_series_node::parse
$1 = one::property::time::Timestamp::parse(PropertyType::TopologyCreationTimeStamp, p0)
$2 = one::property::object_space_reference::ObjectSpaceReference::parse_vec(PropertyType::ChildGraphSpaceElementNodes, p0)
$3 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::MetaDataObjectsAboveGraphSpace, p0)
$4 = one::property::simple::parse_guid(PropertyType::NotebookManagementEntityGuid, p0)
$5 = one::property_set::assert_property_set(p0, PropertySetId::PageSeriesNode)
$6 = if !is1($2.ok): vecnil
  else $2.ok.some
$7 = if !is1($3.ok): vecnil
  else $3.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if !is1($4.ok): Err(E)
else Ok(page_series_node::Data{entity_guid: $4.ok.some, page_spaces: $6, page_metadata: $7, created_at: $1.ok})

