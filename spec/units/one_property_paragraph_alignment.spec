## crate::one::property::paragraph_alignment::ParagraphAlignment::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::ParagraphAlignment)
$3 = onestore::types::property::PropertyValue::to_u8($2.some)
$4 = if ($3.some == 1): ParagraphAlignment::Center
  else if ($3.some == 2): ParagraphAlignment::Right
  else if ($3.some == 0): ParagraphAlignment::Left
  else ParagraphAlignment::Unknown
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($4))

