## crate::fsshttpb::data_element::DataElement::parse
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::DataElement)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
$4 = fsshttpb::data::compact_u64::CompactU64::parse($3')
$5 = fsshttpb::data::compact_u64::CompactU64::value($4.ok)
$6 = fsshttpb::data_element::revision_manifest::<impl fsshttpb::data_element::DataElement>::parse_revision_manifest($4')
$7 = fsshttpb::data_element::object_data_blob::<impl fsshttpb::data_element::DataElement>::parse_object_data_blob($4')
$8 = fsshttpb::data_element::storage_manifest::<impl fsshttpb::data_element::DataElement>::parse_storage_manifest($4')
$9 = fsshttpb::data_element::data_element_fragment::<impl fsshttpb::data_element::DataElement>::parse_data_element_fragment($4')
$10 = fsshttpb::data_element::cell_manifest::<impl fsshttpb::data_element::DataElement>::parse_cell_manifest($4')
$11 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group($4')
$12 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index($4')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if ($5 == 4): 
  if !is1($6): Ok(unit)
  else Err(E)
else if ($5 == 10): 
  if !is1($7): Ok(unit)
  else Err(E)
else if ($5 == 2): 
  if !is1($8): Ok(unit)
  else Err(E)
else if ($5 == 6): 
  if !is1($9): Ok(unit)
  else Err(E)
else if ($5 == 3): 
  if !is1($10): Ok(unit)
  else Err(E)
else if ($5 == 5): 
  if !is1($11): Ok(unit)
  else Err(E)
else if !($5 == 1): Err(E)
else if !is1($12): Ok(unit)
else Err(E)
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::DataElement)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
$4 = fsshttpb::data::compact_u64::CompactU64::parse($3')
$5 = fsshttpb::data::compact_u64::CompactU64::value($4.ok)
$6 = fsshttpb::data_element::revision_manifest::<impl fsshttpb::data_element::DataElement>::parse_revision_manifest($4')
$7 = fsshttpb::data_element::object_data_blob::<impl fsshttpb::data_element::DataElement>::parse_object_data_blob($4')
$8 = fsshttpb::data_element::storage_manifest::<impl fsshttpb::data_element::DataElement>::parse_storage_manifest($4')
$9 = fsshttpb::data_element::data_element_fragment::<impl fsshttpb::data_element::DataElement>::parse_data_element_fragment($4')
$10 = fsshttpb::data_element::cell_manifest::<impl fsshttpb::data_element::DataElement>::parse_cell_manifest($4')
$11 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group($4')
$12 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index($4')
=> if ($5 == 4): $6'
else if ($5 == 10): $7'
else if ($5 == 2): $8'
else if ($5 == 6): $9'
else if ($5 == 3): $10'
else if ($5 == 5): $11'
else $12'
state p1: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::DataElement)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
$4 = fsshttpb::data::compact_u64::CompactU64::parse($3')
$5 = fsshttpb::data::compact_u64::CompactU64::value($4.ok)
$6 = fsshttpb::data_element::revision_manifest::<impl fsshttpb::data_element::DataElement>::parse_revision_manifest($4')
$7 = fsshttpb::data_element::object_data_blob::<impl fsshttpb::data_element::DataElement>::parse_object_data_blob($4')
$8 = fsshttpb::data_element::storage_manifest::<impl fsshttpb::data_element::DataElement>::parse_storage_manifest($4')
$9 = fsshttpb::data_element::data_element_fragment::<impl fsshttpb::data_element::DataElement>::parse_data_element_fragment($4')
$10 = fsshttpb::data_element::cell_manifest::<impl fsshttpb::data_element::DataElement>::parse_cell_manifest($4')
$11 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index($4')
$12 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group($4')
=> if ($5 == 4): upd[*p1, (None, 3), mapput[*p1.revision_manifests, $2.ok, $6.ok]]
else if ($5 == 10): upd[*p1, (None, 6), mapput[*p1.object_data_blobs, $2.ok, $7.ok]]
else if ($5 == 2): upd[*p1, (None, 1), mapput[*p1.storage_manifests, $2.ok, $8.ok]]
else if ($5 == 6): upd[*p1, (None, 5), mapput[*p1.data_element_fragments, $2.ok, $9.ok]]
else if ($5 == 3): upd[*p1, (None, 2), mapput[*p1.cell_manifests, $2.ok, $10.ok]]
else if !($5 == 5): upd[*p1, (None, 0), mapput[*p1.storage_indexes, $2.ok, $11.ok]]
else upd[*p1, (None, 4), mapput[*p1.object_groups, $2.ok, $12.ok]]

## crate::fsshttpb::data_element::DataElementPackage::find_blob
$1 = mapget(p0.object_data_blobs, p1)
$2 = fsshttpb::data_element::object_data_blob::ObjectDataBlob::value($1.some)
=> if !is1($1): None
else Some($2)

## crate::fsshttpb::data_element::DataElementPackage::find_cell_revision_id
$1 = mapget(p0.cell_manifests, p1)
=> $1

## crate::fsshttpb::data_element::DataElementPackage::find_object_group
$1 = mapget(p0.object_groups, p1)
=> $1

## crate::fsshttpb::data_element::DataElementPackage::find_objects
$1 = fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_by_serial(p2, p1.serial)
$2 = fsshttpb::data_element::DataElementPackage::resolve_cell_revision_manifest_id(p0, p2, p1.id)
$3 = if !is1($1): $2.some
  else if !is1($2): $1.some
  else $2.some
$4 = fsshttpb::data_element::DataElementPackage::find_revision_manifest(p0, $3)
$5 = fsshttpb::data_element::DataElementPackage::find_object_group(p0, elb[1])
$6 = if !is1($5): true
  else false
$7 = lp[1, $4.some.group_references, (), (), (), $6]
$8 = ldone[$7]
$9 = gen[$4.some.group_references, true, $5.some, 1]
=> if is1($1): 
  if !is1($4): Err(E)
  else if !$8: Err(E)
  else Ok($9)
else if !is1($2): Err(E)
else if !is1($4): Err(E)
else if !$8: Err(E)
else Ok($9)

## crate::fsshttpb::data_element::DataElementPackage::find_revision_manifest
$1 = mapget(p0.revision_manifests, p1)
=> $1

## crate::fsshttpb::data_element::DataElementPackage::find_single
$1 = first(mapvals[p0])
=> if (len[p0] == 0): None
else if !(len[p0] < 2): None
else Some($1.some)

## crate::fsshttpb::data_element::DataElementPackage::find_storage_index
$1 = fsshttpb::data_element::DataElementPackage::find_single(p0.storage_indexes)
=> $1

## crate::fsshttpb::data_element::DataElementPackage::find_storage_index_by_id
$1 = mapget(p0.storage_indexes, p1)
=> $1

## crate::fsshttpb::data_element::DataElementPackage::find_storage_manifest
$1 = mapget(p0.storage_manifests, elb[1].mapping_id)
$2 = lp[1, p1.manifest_mappings, (), (), (is1($1)), false]
$3 = fsshttpb::data_element::DataElementPackage::find_single(p0.storage_manifests)
=> if !lexit[$2, is1($1)]: $3
else Some(lpv[$2, is1($1), $1.some])

## crate::fsshttpb::data_element::DataElementPackage::parse
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::DataElementPackage)
$2 = reader::Reader::get_u8($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::DataElementPackage)
$4 = fsshttpb::data_element::DataElement::parse($3', lvb[1, 0])
$5 = if !$3.ok: false
  else if !is1($3): true
  else false
$6 = if $3.ok: is1($3)
  else if is1($3): true
  else is1($4)
$7 = lp[1, unit, (DataElementPackage{storage_indexes: mapnil, storage_manifests: mapnil, cell_manifests: mapnil, revision_manifests: mapnil, object_groups: mapnil, data_element_fragments: mapnil, object_data_blobs: mapnil}, $2'), ($4'1, $4'), ($5), $6]
$8 = ldone[$7]
$9 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$7, $5, $3'], ObjectType::DataElementPackage)
=> if is1($1): Err(E)
else if !($2.ok == 0): Err(E)
else if is1($2): Err(E)
else if !$8: Err(E)
else if is1($9): Err(E)
else Ok(lpv[$7, $5, lvb[1, 0]])
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::DataElementPackage)
$2 = reader::Reader::get_u8($1')
$3 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::DataElementPackage)
$4 = fsshttpb::data_element::DataElement::parse($3', lvb[1, 0])
$5 = if !$3.ok: false
  else if !is1($3): true
  else false
$6 = if $3.ok: is1($3)
  else if is1($3): true
  else is1($4)
$7 = lp[1, unit, (DataElementPackage{storage_indexes: mapnil, storage_manifests: mapnil, cell_manifests: mapnil, revision_manifests: mapnil, object_groups: mapnil, data_element_fragments: mapnil, object_data_blobs: mapnil}, $2'), ($4'1, $4'), ($5), $6]
$8 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$7, $5, $3'], ObjectType::DataElementPackage)
=> $8'

## crate::fsshttpb::data_element::DataElementPackage::resolve_cell_revision_manifest_id
$1 = fsshttpb::data_element::DataElementPackage::find_cell_revision_id(p0, p2)
$2 = fsshttpb::data_element::DataElementPackage::resolve_revision_manifest_id(p0, p1, p2)
$3 = fsshttpb::data_element::DataElementPackage::resolve_revision_manifest_id(p0, p1, $1.some)
=> if !is1($1): $2
else if !is1($3): $2
else $3

## crate::fsshttpb::data_element::DataElementPackage::resolve_revision_manifest_id
$1 = fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_id(p1, p2)
$2 = mapget(p0.revision_manifests, p2)
=> if is1($1): $1
else if !is1($2): None
else Some(p2)

