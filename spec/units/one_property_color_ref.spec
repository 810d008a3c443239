## crate::one::property::color_ref::ColorRef::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = u8{$3.some[24:32]}
$5 = ($4 == 0)
$6 = if !$5: ColorRef::Auto
  else ColorRef::Manual{r: u8{$3.some[0:8]}, g: u8{$3.some[8:16]}, b: u8{$3.some[16:24]}}
=> if !is1($2): Ok(None)
else if $5: 
  if !is1($3): Err(E)
  else Ok(Some($6))
else if !($4 == 255): Err(E)
else if !is1($3): Err(E)
else Ok(Some($6))

