## crate::onestore::types::object_stream_header::ObjectStreamHeader::parse
$1 = reader::Reader::get_u32(*p0)
$2 = if !(u8{$1.ok[30:31]} == 0): true
  else false
$3 = if !(u8{$1.ok[31:32]} == 0): true
  else false
=> if is1($1): Err(E)
else Ok(ObjectStreamHeader{count: u32{$1.ok[0:24]}, extended_streams_present: $2, osid_stream_not_present: $3})
state p0: $1 = reader::Reader::get_u32(*p0)
=> $1'

