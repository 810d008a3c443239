## crate::one::property::ink_dimensions::InkDimension::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_vec($2.some)
$4 = chunks_exact[$3.some, 32]
$5 = one::property::ink_dimensions::InkDimension::parse_entry(elb[1])
$6 = lp[1, $4, (), (), (), is1($5)]
=> if !is1($2): Ok(vecnil)
else if !is1($3): Err(E)
else if !ldone[$6]: Err(E)
else Ok(gen[$4, true, $5.ok, 1])

## crate::one::property::ink_dimensions::InkDimension::parse_entry
$1 = reader::Reader::new(p0)
$2 = shared::guid::Guid::parse($1)
$3 = reader::Reader::get_u32($2')
$4 = reader::Reader::get_u32($3')
=> if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else Ok(InkDimension{id: $2.ok, limit_lower: ($3.ok as i32), limit_upper: ($4.ok as i32)})

