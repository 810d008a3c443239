## crate::one::property_set::embedded_file_container::Data::into_value
=> p0.0

## crate::one::property_set::embedded_file_container::parse
$1 = onestore::object::Object::file_data(p0)
$2 = one::property_set::assert_property_set(p0, PropertySetId::EmbeddedFileContainer)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else Ok(embedded_file_container::Data($1.some))

