## crate::one::property::simple::parse_ascii
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
$4 = encoding_rs::mem::decode_latin1($3.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($4))

## crate::one::property::simple::parse_bool
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_bool($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($3.some))

## crate::one::property::simple::parse_f32
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(fbits[f32, $3.some]))

## crate::one::property::simple::parse_guid
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
$4 = reader::Reader::new($3.some)
$5 = shared::guid::Guid::parse($4)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else if is1($5): Err(E)
else Ok(Some($5.ok))

## crate::one::property::simple::parse_string
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
$4 = <&[u8] as utils::Utf16ToString>::utf16_to_string($3.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else if is1($4): Err(E)
else Ok(Some($4.ok))

## crate::one::property::simple::parse_u16
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u16($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($3.some))

## crate::one::property::simple::parse_u32
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($3.some))

## crate::one::property::simple::parse_u8
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u8($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($3.some))

## crate::one::property::simple::parse_vec
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($3.some))

## crate::one::property::simple::parse_vec_u16
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(gen[chunks_exact[$3.some, 2], true, u16{idx[elb[1], 0][0:8]|idx[elb[1], 1][0:8]<<8}, 1]))

## crate::one::property::simple::parse_vec_u32
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(gen[chunks_exact[$3.some, 4], true, u32{idx[elb[1], 0][0:8]|idx[elb[1], 1][0:8]<<8|idx[elb[1], 2][0:8]<<16|idx[elb[1], 3][0:8]<<24}, 1]))

