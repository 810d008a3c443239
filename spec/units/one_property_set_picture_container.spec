## crate::one::property_set::picture_container::parse
$1 = onestore::object::Object::id(p0)
$2 = one::property_set::PropertySetId::as_jcid(PropertySetId::PictureContainer)
$3 = one::property::simple::parse_string(PropertyType::PictureFileExtension, p0)
$4 = onestore::object::Object::file_data(p0)
$5 = if !is1($4): vecnil
  else $4.some
$6 = one::property_set::PropertySetId::as_jcid(PropertySetId::XpsContainer)
=> if ($1 == $2): 
  if is1($3): Err(E)
  else Ok(picture_container::Data{data: $5, extension: $3.ok})
else if !($1 == $6): Err(E)
else if is1($3): Err(E)
else Ok(picture_container::Data{data: $5, extension: $3.ok})

