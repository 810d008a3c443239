## crate::one::property_set::embedded_ink_container::Data::parse
$1 = one::property::simple::parse_f32(PropertyType::EmbeddedInkStartX, p0)
$2 = one::property::simple::parse_f32(PropertyType::EmbeddedInkSpaceHeight, p0)
$3 = one::property::simple::parse_f32(PropertyType::EmbeddedInkOffsetVert, p0)
$4 = one::property::simple::parse_f32(PropertyType::EmbeddedInkOffsetHoriz, p0)
$5 = one::property::simple::parse_f32(PropertyType::EmbeddedInkSpaceWidth, p0)
$6 = one::property::simple::parse_f32(PropertyType::EmbeddedInkHeight, p0)
$7 = one::property::simple::parse_f32(PropertyType::EmbeddedInkWidth, p0)
$8 = one::property::simple::parse_f32(PropertyType::EmbeddedInkStartY, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else Ok(embedded_ink_container::Data{space_width: $5.ok, space_height: $2.ok, start_x: $1.ok, start_y: $8.ok, height: $6.ok, width: $7.ok, offset_horiz: $4.ok, offset_vert: $3.ok})

