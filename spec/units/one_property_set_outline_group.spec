## crate::one::property_set::outline_group::parse
$1 = one::property::simple::parse_u8(PropertyType::OutlineElementChildLevel, p0)
$2 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$3 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$4 = one::property_set::assert_property_set(p0, PropertySetId::OutlineGroup)
$5 = if !is1($2.ok): vecnil
  else $2.ok.some
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($3.ok): Err(E)
else Ok(outline_group::Data{last_modified: $3.ok.some, children: $5, child_level: $1.ok.some})

