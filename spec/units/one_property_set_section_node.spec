## crate::one::property_set::section_node::parse
$1 = one::property::time::Timestamp::parse(PropertyType::TopologyCreationTimeStamp, p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::SectionNode)
$3 = one::property::simple::parse_guid(PropertyType::NotebookManagementEntityGuid, p0)
$4 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$5 = onestore::object::Object::context_id(p0)
$6 = if !is1($4.ok): vecnil
  else $4.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($3.ok): Err(E)
else Ok(section_node::Data{context_id: $5, entity_guid: $3.ok.some, page_series: $6, created_at: $1.ok.some})

