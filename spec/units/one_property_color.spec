## crate::one::property::color::Color::alpha
=> p0.alpha

## crate::one::property::color::Color::b
=> p0.b

## crate::one::property::color::Color::g
=> p0.g

## crate::one::property::color::Color::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(Color{alpha: (0 -.u8 (1 +.u8 u8{$3.some[24:32]})), r: u8{$3.some[0:8]}, g: u8{$3.some[8:16]}, b: u8{$3.some[16:24]}}))

## crate::one::property::color::Color::r
=> p0.r

