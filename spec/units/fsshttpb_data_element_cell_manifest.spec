## crate::fsshttpb::data_element::cell_manifest::<impl fsshttpb::data_element::DataElement>::parse_cell_manifest
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::CellManifest)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($2', ObjectType::DataElement)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else Ok($2.ok)
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::CellManifest)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($2', ObjectType::DataElement)
=> $3'

