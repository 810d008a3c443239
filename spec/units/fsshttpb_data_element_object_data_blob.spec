## crate::<fsshttpb::data_element::object_data_blob::ObjectDataBlob as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[15, 79, 98, 106, 101, 99, 116, 68, 97, 116, 97, 66, 108, 111, 98, 40, 192, 7, 32, 98, 121, 116, 101, 115, 41, 0], [fmtarg[display, len[p0.0]]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[15, 79, 98, 106, 101, 99, 116, 68, 97, 116, 97, 66, 108, 111, 98, 40, 192, 7, 32, 98, 121, 116, 101, 115, 41, 0], [fmtarg[display, len[p0.0]]]])
=> $1'

## crate::fsshttpb::data_element::object_data_blob::<impl fsshttpb::data_element::DataElement>::parse_object_data_blob
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::ObjectDataBlob)
$2 = fsshttpb::data::binary_item::BinaryItem::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($2', ObjectType::DataElement)
$4 = fsshttpb::data::binary_item::BinaryItem::value($2.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else Ok(ObjectDataBlob($4))
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::ObjectDataBlob)
$2 = fsshttpb::data::binary_item::BinaryItem::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($2', ObjectType::DataElement)
=> $3'

## crate::fsshttpb::data_element::object_data_blob::ObjectDataBlob::value
=> p0.0

