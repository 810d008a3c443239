## crate::one::property_set::page_manifest_node::parse
$1 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ContentChildNodes, p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::PageManifestNode)
=> if (len[$1.ok.some] == 0): Err(E)
else if is1($2): Err(E)
else if is1($1): Err(E)
else if !is1($1.ok): Err(E)
else Ok(page_manifest_node::Data{page: idx[$1.ok.some, 0]})

