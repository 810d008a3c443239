## crate::one::property::time::Time::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = if !is1($2): None
  else Some(Time($3.some))
=> if !is1($2): Ok($4)
else if !is1($3): Err(E)
else Ok($4)

## crate::one::property::time::Timestamp::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u64($2.some)
$4 = if !is1($2): None
  else Some(Timestamp($3.some))
=> if !is1($2): Ok($4)
else if !is1($3): Err(E)
else Ok($4)

