## crate::one::property_set::ink_stroke_node::parse
$1 = one::property::simple::parse_u8(PropertyType::InkBias, p0)
$2 = ($1.ok.some == 1)
$3 = one::property::simple::parse_u32(PropertyType::LanguageId, p0)
$4 = one::property::simple::parse_vec(PropertyType::InkPath, p0)
$5 = one::property::object_reference::ObjectReference::parse(PropertyType::InkStrokeProperties, p0)
$6 = one::property_set::assert_property_set(p0, PropertySetId::InkStrokeNode)
$7 = shared::multi_byte::decode_signed($4.ok.some)
$8 = ($1.ok.some == 2)
$9 = if $2: InkBias::Drawing
  else if $8: InkBias::Both
  else InkBias::Handwriting
=> if $2: 
  if is1($1): Err(E)
  else if is1($3): Err(E)
  else if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if !is1($4.ok): Err(E)
  else if !is1($1.ok): Err(E)
  else if !is1($5.ok): Err(E)
  else if is1($7): Err(E)
  else Ok(ink_stroke_node::Data{path: $7.ok, bias: $9, language_code: $3.ok, properties: $5.ok.some})
else if $8: 
  if is1($1): Err(E)
  else if is1($3): Err(E)
  else if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if !is1($4.ok): Err(E)
  else if !is1($1.ok): Err(E)
  else if !is1($5.ok): Err(E)
  else if is1($7): Err(E)
  else Ok(ink_stroke_node::Data{path: $7.ok, bias: $9, language_code: $3.ok, properties: $5.ok.some})
else if !($1.ok.some == 0): Err(E)
else if is1($1): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !is1($4.ok): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($5.ok): Err(E)
else if is1($7): Err(E)
else Ok(ink_stroke_node::Data{path: $7.ok, bias: $9, language_code: $3.ok, properties: $5.ok.some})

