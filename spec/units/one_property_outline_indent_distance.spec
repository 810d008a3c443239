## crate::one::property::outline_indent_distance::OutlineIndentDistance::into_value
=> p0.0

## crate::one::property::outline_indent_distance::OutlineIndentDistance::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::RgOutlineIndentDistance)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
$4 = reader::Reader::new($3.some)
$5 = reader::Reader::get_u8($4)
$6 = reader::Reader::advance($5', 3)
$7 = range[0, $5.ok]
$8 = reader::Reader::get_f32(lvb[1, 0])
$9 = lp[1, $7, ($6'), ($8'), (), is1($8)]
$10 = reader::Reader::get_f32(lvb[1, 1])
$11 = lp[1, $7, (vecnil, $6'), (push[lvb[1, 0], $10.ok], $10'), (), is1($10)]
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !ldone[$9]: Err(E)
else Ok(Some(OutlineIndentDistance(lpv[$11, done, lvb[1, 0]])))

## crate::one::property::outline_indent_distance::OutlineIndentDistance::value
=> p0.0

