## crate::<onestore::types::property::PropertyId as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[13, 80, 114, 111, 112, 101, 114, 116, 121, 73, 100, 40, 48, 120, 195, 32, 0, 0, 105, 8, 0, 1, 41, 0], [fmtarg[upper_hex, p0.0]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[13, 80, 114, 111, 112, 101, 114, 116, 121, 73, 100, 40, 48, 120, 195, 32, 0, 0, 105, 8, 0, 1, 41, 0], [fmtarg[upper_hex, p0.0]]])
=> $1'

## crate::onestore::types::property::PropertyId::bool
=> if !(u8{p0.0[31:32]} == 0): true
else false

## crate::onestore::types::property::PropertyId::id
=> u32{p0.0[0:26]}

## crate::onestore::types::property::PropertyId::new
=> PropertyId(p0)

## crate::onestore::types::property::PropertyId::parse
$1 = reader::Reader::get_u32(*p0)
$2 = onestore::types::property::PropertyId::new($1.ok)
=> if is1($1): Err(E)
else Ok($2)
state p0: $1 = reader::Reader::get_u32(*p0)
=> $1'

## crate::onestore::types::property::PropertyId::prop_type
=> u32{p0.0[26:31]}

## crate::onestore::types::property::PropertyId::value
=> p0.0

## crate::onestore::types::property::PropertyValue::parse_nested
$1 = onestore::types::property::PropertyId::prop_type(p0)
$2 = onestore::types::property::PropertyValue::parse_vec(*p1)
$3 = reader::Reader::get_u32(*p1)
$4 = onestore::types::property::PropertyId::bool(p0)
$5 = reader::Reader::get_u8(*p1)
$6 = onestore::types::prop_set::PropertySet::parse_nested(*p1, (1 +.usize p2))
$7 = reader::Reader::get_u64(*p1)
$8 = reader::Reader::get_u16(*p1)
$9 = onestore::types::property::PropertyValue::parse_property_values(*p1, p2)
$10 = if ($1 == 8): PropertyValue::ObjectId
  else if ($1 == 7): $2.ok
  else if ($1 == 9): PropertyValue::ObjectIds($3.ok)
  else if ($1 == 5): PropertyValue::U32($3.ok)
  else if ($1 == 12): PropertyValue::ContextId
  else if ($1 == 2): PropertyValue::Bool($4)
  else if ($1 == 3): PropertyValue::U8($5.ok)
  else if ($1 == 10): PropertyValue::ObjectSpaceId
  else if ($1 == 17): PropertyValue::PropertySet($6.ok)
  else if ($1 == 11): PropertyValue::ObjectSpaceIds($3.ok)
  else if ($1 == 6): PropertyValue::U64($7.ok)
  else if ($1 == 1): PropertyValue::Empty
  else if ($1 == 4): PropertyValue::U16($8.ok)
  else if !($1 == 16): PropertyValue::ContextIds($3.ok)
  else $9.ok
=> if ($1 == 8): Ok($10)
else if ($1 == 7): 
  if is1($2): Err(E)
  else Ok($10)
else if ($1 == 9): 
  if is1($3): Err(E)
  else Ok($10)
else if ($1 == 5): 
  if is1($3): Err(E)
  else Ok($10)
else if ($1 == 12): Ok($10)
else if ($1 == 2): Ok($10)
else if ($1 == 3): 
  if is1($5): Err(E)
  else Ok($10)
else if ($1 == 10): Ok($10)
else if ($1 == 17): 
  if is1($6): Err(E)
  else Ok($10)
else if ($1 == 11): 
  if is1($3): Err(E)
  else Ok($10)
else if ($1 == 6): 
  if is1($7): Err(E)
  else Ok($10)
else if ($1 == 1): Ok($10)
else if ($1 == 4): 
  if is1($8): Err(E)
  else Ok($10)
else if ($1 == 16): 
  if is1($9): Err(E)
  else Ok($10)
else if !($1 == 13): Err(E)
else if is1($3): Err(E)
else Ok($10)
state p1: $1 = onestore::types::property::PropertyId::prop_type(p0)
$2 = onestore::types::property::PropertyValue::parse_vec(*p1)
$3 = reader::Reader::get_u32(*p1)
$4 = reader::Reader::get_u8(*p1)
$5 = onestore::types::prop_set::PropertySet::parse_nested(*p1, (1 +.usize p2))
$6 = reader::Reader::get_u64(*p1)
$7 = reader::Reader::get_u16(*p1)
$8 = onestore::types::property::PropertyValue::parse_property_values(*p1, p2)
=> if ($1 == 8): *p1
else if ($1 == 7): $2'
else if ($1 == 9): $3'
else if ($1 == 5): $3'
else if ($1 == 12): *p1
else if ($1 == 2): *p1
else if ($1 == 3): $4'
else if ($1 == 10): *p1
else if ($1 == 17): $5'
else if ($1 == 11): $3'
else if ($1 == 6): $6'
else if ($1 == 1): *p1
else if ($1 == 4): $7'
else if !($1 == 16): $3'
else $8'

## crate::onestore::types::property::PropertyValue::parse_property_values
$1 = reader::Reader::get_u32(*p0)
$2 = onestore::types::property::PropertyId::parse($1')
$3 = range[0, $1.ok]
$4 = onestore::types::prop_set::PropertySet::parse_nested(lvb[1, 0], (1 +.usize p1))
$5 = lp[1, $3, ($2'), ($4'), (), is1($4)]
$6 = lp[1, $3, ($2', vecnil), ($4', push[lvb[1, 1], $4.ok]), (), is1($4)]
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$5]: Err(E)
else Ok(PropertyValue::PropertyValues($2.ok, lpv[$6, done, lvb[1, 1]]))
state p0: $1 = reader::Reader::get_u32(*p0)
$2 = onestore::types::property::PropertyId::parse($1')
$3 = onestore::types::prop_set::PropertySet::parse_nested(lvb[1, 0], (1 +.usize p1))
$4 = lp[1, range[0, $1.ok], ($2'), ($3'), (), is1($3)]
=> lpv[$4, done, lvb[1, 0]]

## crate::onestore::types::property::PropertyValue::parse_vec
$1 = reader::Reader::get_u32(*p0)
$2 = reader::Reader::read($1', usize{$1.ok[0:32]})
=> if is1($1): Err(E)
else if is1($2): Err(E)
else Ok(PropertyValue::Vec($2.ok))
state p0: $1 = reader::Reader::get_u32(*p0)
$2 = reader::Reader::read($1', usize{$1.ok[0:32]})
=> $2'

## crate::onestore::types::property::PropertyValue::to_bool
=> p0

## crate::onestore::types::property::PropertyValue::to_object_id
=> if !is7(p0): None
else Some(unit)

## crate::onestore::types::property::PropertyValue::to_object_ids
=> if !is8(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_object_space_ids
=> if !is10(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_property_values
=> if !is13(p0): None
else Some((p0.0, p0.1))

## crate::onestore::types::property::PropertyValue::to_u16
=> if !is3(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_u32
=> if !is4(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_u64
=> if !is5(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_u8
=> if !is2(p0): None
else Some(p0.0)

## crate::onestore::types::property::PropertyValue::to_vec
=> if !is6(p0): None
else Some(p0.0)

