## crate::<fsshttpb::data::exguid::ExGuid as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[8, 69, 120, 71, 117, 105, 100, 32, 123, 192, 2, 44, 32, 192, 1, 125, 0], [fmtarg[display, p0.guid], fmtarg[display, p0.value]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[8, 69, 120, 71, 117, 105, 100, 32, 123, 192, 2, 44, 32, 192, 1, 125, 0], [fmtarg[display, p0.guid], fmtarg[display, p0.value]]])
=> $1'

## crate::fsshttpb::data::exguid::ExGuid::as_option
$1 = fsshttpb::data::exguid::ExGuid::is_nil(p0)
=> if $1: None
else Some(p0)

## crate::fsshttpb::data::exguid::ExGuid::from_guid
=> ExGuid{guid: p0, value: p1}

## crate::fsshttpb::data::exguid::ExGuid::is_nil
$1 = shared::guid::Guid::is_nil(p0.guid)
=> if !(p0.value == 0): false
else $1

## crate::fsshttpb::data::exguid::ExGuid::parse
$1 = reader::Reader::get_u8(*p0)
$2 = shared::guid::Guid::nil()
$3 = reader::Reader::get_u32($1')
$4 = shared::guid::Guid::parse($3')
$5 = reader::Reader::get_u8($1')
$6 = shared::guid::Guid::parse($5')
$7 = shared::guid::Guid::parse($1')
$8 = reader::Reader::get_u16($1')
$9 = shared::guid::Guid::parse($8')
=> if ($1.ok == 0): 
  if is1($1): Err(E)
  else Ok(ExGuid{guid: $2, value: 0})
else if ($1.ok == 128): 
  if is1($1): Err(E)
  else if is1($3): Err(E)
  else if is1($4): Err(E)
  else Ok(ExGuid{guid: $4.ok, value: $3.ok})
else if !(u8{$1.ok[0:1]} == 0): Err(E)
else if !(u8{$1.ok[1:2]} == 0): Err(E)
else if (u8{$1.ok[0:6]} == 32): 
  if is1($1): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else Ok(ExGuid{guid: $6.ok, value: u32{$1.ok[6:8]|$5.ok[0:8]<<2}})
else if !(u8{$1.ok[0:7]} == 64): 
  if (u8{$1.ok[2:3]} == 0): Err(E)
  else if is1($1): Err(E)
  else if is1($7): Err(E)
  else Ok(ExGuid{guid: $7.ok, value: u32{$1.ok[3:8]}})
else if is1($1): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else Ok(ExGuid{guid: $9.ok, value: u32{$1.ok[7:8]|$8.ok[0:16]<<1}})
state p0: $1 = reader::Reader::get_u8(*p0)
$2 = reader::Reader::get_u32($1')
$3 = shared::guid::Guid::parse($2')
$4 = reader::Reader::get_u8($1')
$5 = shared::guid::Guid::parse($4')
$6 = shared::guid::Guid::parse($1')
$7 = reader::Reader::get_u16($1')
$8 = shared::guid::Guid::parse($7')
=> if ($1.ok == 0): $1'
else if ($1.ok == 128): $3'
else if (u8{$1.ok[0:6]} == 32): $5'
else if !(u8{$1.ok[0:7]} == 64): $6'
else $8'

## crate::fsshttpb::data::exguid::ExGuid::parse_array
$1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = range[0, $2]
$4 = fsshttpb::data::exguid::ExGuid::parse(lvb[1, 0])
$5 = lp[1, $3, ($1'), ($4'), (), is1($4)]
$6 = lp[1, $3, ($1', vecnil), ($4', push[lvb[1, 1], $4.ok]), (), is1($4)]
=> if is1($1): Err(E)
else if !ldone[$5]: Err(E)
else Ok(lpv[$6, done, lvb[1, 1]])
state p0: $1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = fsshttpb::data::exguid::ExGuid::parse(lvb[1, 0])
$4 = lp[1, range[0, $2], ($1'), ($3'), (), is1($3)]
=> lpv[$4, done, lvb[1, 0]]

