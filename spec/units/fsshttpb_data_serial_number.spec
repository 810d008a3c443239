## crate::fsshttpb::data::serial_number::SerialNumber::parse
$1 = reader::Reader::get_u8(*p0)
$2 = shared::guid::Guid::nil()
$3 = shared::guid::Guid::parse($1')
$4 = reader::Reader::get_u64($3')
=> if ($1.ok == 0): 
  if is1($1): Err(E)
  else Ok(SerialNumber{guid: $2, serial: 0})
else if is1($1): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else Ok(SerialNumber{guid: $3.ok, serial: $4.ok})
state p0: $1 = reader::Reader::get_u8(*p0)
$2 = shared::guid::Guid::parse($1')
$3 = reader::Reader::get_u64($2')
=> if ($1.ok == 0): $1'
else $3'

