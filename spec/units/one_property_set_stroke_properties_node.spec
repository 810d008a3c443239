## crate::one::property_set::stroke_properties_node::parse
$1 = one::property::simple::parse_bool(PropertyType::InkIgnorePressure, p0)
$2 = one::property::ink_dimensions::InkDimension::parse(PropertyType::InkDimensions, p0)
$3 = one::property_set::assert_property_set(p0, PropertySetId::StrokePropertiesNode)
$4 = one::property::simple::parse_u8(PropertyType::InkRasterOperation, p0)
$5 = one::property::simple::parse_f32(PropertyType::InkWidth, p0)
$6 = one::property::simple::parse_u8(PropertyType::InkTransparency, p0)
$7 = one::property::simple::parse_bool(PropertyType::InkAntialised, p0)
$8 = one::property::simple::parse_f32(PropertyType::InkHeight, p0)
$9 = one::property::simple::parse_u8(PropertyType::InkPenTip, p0)
$10 = one::property::simple::parse_u32(PropertyType::InkColor, p0)
$11 = one::property::simple::parse_bool(PropertyType::InkFitToCurve, p0)
$12 = if !$7.ok.some: false
  else is1($7.ok)
$13 = if !$11.ok.some: false
  else is1($11.ok)
$14 = if !$1.ok.some: false
  else is1($1.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if !is1($8.ok): Err(E)
else if !is1($5.ok): Err(E)
else Ok(stroke_properties_node::Data{aliased: $12, fit_to_curve: $13, ignore_pressure: $14, pen_tip: $9.ok, raster_operation: $4.ok, transparency: $6.ok, ink_height: $8.ok.some, ink_width: $5.ok.some, color: $10.ok, dimensions: $2.ok})

