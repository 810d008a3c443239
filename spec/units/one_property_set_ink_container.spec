## crate::one::property_set::ink_container::parse
$1 = one::property::simple::parse_f32(PropertyType::InkScalingY, p0)
$2 = one::property::simple::parse_f32(PropertyType::OffsetFromParentHoriz, p0)
$3 = one::property::simple::parse_f32(PropertyType::InkScalingX, p0)
$4 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$5 = one::property_set::assert_property_set(p0, PropertySetId::InkContainer)
$6 = one::property::simple::parse_f32(PropertyType::OffsetFromParentVert, p0)
$7 = one::property::object_reference::ObjectReference::parse(PropertyType::InkData, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else Ok(ink_container::Data{offset_from_parent_horiz: $2.ok, offset_from_parent_vert: $6.ok, last_modified: $4.ok, ink_data: $7.ok, ink_scaling_x: $3.ok, ink_scaling_y: $1.ok})

