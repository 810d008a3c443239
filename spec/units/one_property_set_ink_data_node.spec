## crate::one::property_set::ink_data_node::parse
$1 = one::property_set::assert_property_set(p0, PropertySetId::InkDataNode)
$2 = one::property::simple::parse_vec_u32(PropertyType::InkBoundingBox, p0)
$3 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::InkStrokes, p0)
$4 = if !(len[$2.ok.some] == 4): None
  else if !is1($2.ok): None
  else Some([idx[$2.ok.some, 0], idx[$2.ok.some, 1], idx[$2.ok.some, 2], idx[$2.ok.some, 3]])
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($3.ok): Err(E)
else Ok(ink_data_node::Data{strokes: $3.ok.some, bounding_box: $4})

