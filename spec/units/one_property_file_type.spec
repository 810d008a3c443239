## crate::one::property::file_type::FileType::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::IRecordMedia)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = ($3.some == 1)
$5 = if !$4: FileType::Video
  else FileType::Audio
=> if !is1($2): Ok(FileType::Unknown)
else if $4: 
  if !is1($3): Err(E)
  else Ok($5)
else if !($3.some == 2): Err(E)
else if !is1($3): Err(E)
else Ok($5)

