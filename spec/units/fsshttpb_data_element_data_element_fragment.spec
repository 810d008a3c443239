## crate::fsshttpb::data_element::data_element_fragment::<impl fsshttpb::data_element::DataElement>::parse_data_element_fragment
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::DataElementFragment)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::compact_u64::CompactU64::parse($2')
$4 = fsshttpb::data::compact_u64::CompactU64::parse($3')
$5 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::value($3.ok)
$7 = reader::Reader::read($5', $6)
$8 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($7', ObjectType::DataElement)
$9 = fsshttpb::data::compact_u64::CompactU64::value($4.ok)
$10 = fsshttpb::data::compact_u64::CompactU64::value($5.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else Ok(DataElementFragment{id: $2.ok, size: $6, chunk_reference: DataElementFragmentChunkReference{offset: $9, length: $10}, data: $7.ok})
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::DataElementFragment)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::compact_u64::CompactU64::parse($2')
$4 = fsshttpb::data::compact_u64::CompactU64::parse($3')
$5 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::value($3.ok)
$7 = reader::Reader::read($5', $6)
$8 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($7', ObjectType::DataElement)
=> $8'

