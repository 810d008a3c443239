## crate::fsshttpb::data::binary_item::BinaryItem::parse
$1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = reader::Reader::read($1', $2)
=> if is1($1): Err(E)
else if is1($3): Err(E)
else Ok(BinaryItem($3.ok))
state p0: $1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = reader::Reader::read($1', $2)
=> $3'

## crate::fsshttpb::data::binary_item::BinaryItem::value
=> p0.0

