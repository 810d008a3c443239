## crate::fsshttpb::data_element::storage_manifest::<impl fsshttpb::data_element::DataElement>::parse_storage_manifest
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::StorageManifest)
$2 = shared::guid::Guid::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$4 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16($3', ObjectType::StorageManifestRoot)
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::cell_id::CellId::parse($5')
$7 = if !$3.ok: false
  else if !is1($3): true
  else false
$8 = if $3.ok: is1($3)
  else if is1($3): true
  else if is1($4): true
  else if is1($5): true
  else is1($6)
$9 = lp[1, unit, ($2'), ($6'), ($7), $8]
$10 = ldone[$9]
$11 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$9, $7, $3'], ObjectType::DataElement)
$12 = lp[1, unit, ($2', mapnil), ($6', mapput[lvb[1, 1], $5.ok, $6.ok]), ($7), $8]
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if !$10: Err(E)
else if is1($11): Err(E)
else Ok(StorageManifest{id: $2.ok, roots: lpv[$12, $7, lvb[1, 1]]})
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::StorageManifest)
$2 = shared::guid::Guid::parse($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$4 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16($3', ObjectType::StorageManifestRoot)
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::cell_id::CellId::parse($5')
$7 = if !$3.ok: false
  else if !is1($3): true
  else false
$8 = if $3.ok: is1($3)
  else if is1($3): true
  else if is1($4): true
  else if is1($5): true
  else is1($6)
$9 = lp[1, unit, ($2'), ($6'), ($7), $8]
$10 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$9, $7, $3'], ObjectType::DataElement)
=> $10'

