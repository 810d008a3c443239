## crate::one::property_set::iframe_node::parse
$1 = one::property_set::assert_property_set(p0, PropertySetId::IFrameNode)
$2 = one::property::simple::parse_u32(PropertyType::ImageEmbedType, p0)
$3 = one::property::simple::parse_string(PropertyType::ImageEmbeddedUrl, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($3.ok): Err(E)
else Ok(iframe_node::Data{embed_type: $2.ok, source_url: $3.ok.some})

