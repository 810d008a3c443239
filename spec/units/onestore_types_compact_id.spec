## crate::onestore::types::compact_id::CompactId::parse
$1 = reader::Reader::get_u32(*p0)
=> if is1($1): Err(E)
else Ok(CompactId{n: u8{$1.ok[0:8]}, guid_index: u32{$1.ok[8:32]}})
state p0: $1 = reader::Reader::get_u32(*p0)
=> $1'

