## crate::fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index
$1 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse_16($1')
$3 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_revision_mapping($2')
$4 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_cell_mapping($2')
$5 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_manifest_mapping($2')
$6 = if is20($2.ok.object_type): $3'
  else if !is19($2.ok.object_type): $4'
  else $5'
$7 = if !$1.ok: false
  else if !is1($1): true
  else false
$8 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is20($2.ok.object_type): is1($3)
  else if is18($2.ok.object_type): is1($4)
  else if !is19($2.ok.object_type): true
  else is1($5)
$9 = lp[1, unit, (*p0), ($6), ($7), $8]
$10 = ldone[$9]
$11 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$9, $7, $1'], ObjectType::DataElement)
$12 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::DataElement)
$13 = fsshttpb::data::stream_object::ObjectHeader::parse_16($12')
$14 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_manifest_mapping($13')
$15 = if !is19($13.ok.object_type): lvb[1, 0]
  else push[lvb[1, 0], $14.ok]
$16 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_revision_mapping($13')
$17 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_cell_mapping($13')
$18 = if is20($13.ok.object_type): $16'
  else if !is19($13.ok.object_type): $17'
  else $14'
$19 = if !$12.ok: false
  else if !is1($12): true
  else false
$20 = if $12.ok: is1($12)
  else if is1($12): true
  else if is1($13): true
  else if is20($13.ok.object_type): is1($16)
  else if is19($13.ok.object_type): is1($14)
  else if !is18($13.ok.object_type): true
  else is1($17)
$21 = lp[1, unit, (vecnil, *p0), ($15, $18), ($19), $20]
$22 = if is20($13.ok.object_type): lvb[1, 0]
  else if is19($13.ok.object_type): lvb[1, 0]
  else mapput[lvb[1, 0], $17.ok.0, $17.ok.1]
$23 = lp[1, unit, (mapnil, *p0), ($22, $18), ($19), $20]
$24 = if !is20($13.ok.object_type): lvb[1, 0]
  else mapput[lvb[1, 0], $16.ok.0, $16.ok.1]
$25 = lp[1, unit, (mapnil, *p0), ($24, $18), ($19), $20]
=> if !$10: Err(E)
else if is1($11): Err(E)
else Ok(StorageIndex{manifest_mappings: lpv[$21, $19, lvb[1, 0]], cell_mappings: lpv[$23, $19, lvb[1, 0]], revision_mappings: lpv[$25, $19, lvb[1, 0]]})
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse_16($1')
$3 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_revision_mapping($2')
$4 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_cell_mapping($2')
$5 = fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_manifest_mapping($2')
$6 = if is20($2.ok.object_type): $3'
  else if !is19($2.ok.object_type): $4'
  else $5'
$7 = if !$1.ok: false
  else if !is1($1): true
  else false
$8 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is20($2.ok.object_type): is1($3)
  else if is18($2.ok.object_type): is1($4)
  else if !is19($2.ok.object_type): true
  else is1($5)
$9 = lp[1, unit, (*p0), ($6), ($7), $8]
$10 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$9, $7, $1'], ObjectType::DataElement)
=> $10'

## crate::fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_cell_mapping
$1 = fsshttpb::data::cell_id::CellId::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else Ok(($1.ok, StorageIndexCellMapping{cell_id: $1.ok, id: $2.ok, serial: $3.ok}))
state p0: $1 = fsshttpb::data::cell_id::CellId::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
=> $3'

## crate::fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_manifest_mapping
$1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::serial_number::SerialNumber::parse($1')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else Ok(StorageIndexManifestMapping{mapping_id: $1.ok, serial: $2.ok})
state p0: $1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::serial_number::SerialNumber::parse($1')
=> $2'

## crate::fsshttpb::data_element::storage_index::<impl fsshttpb::data_element::DataElement>::parse_storage_index_revision_mapping
$1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else Ok(($1.ok, StorageIndexRevisionMapping{revision_mapping: $2.ok, serial: $3.ok}))
state p0: $1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::serial_number::SerialNumber::parse($2')
=> $3'

## crate::fsshttpb::data_element::storage_index::StorageIndex::find_cell_mapping
$1 = mapget(p0.cell_mappings, p1)
=> $1

## crate::fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_by_serial
$1 = if !(p1.serial == elb[1].serial.serial): false
  else (p1.guid == elb[1].serial.guid)
$2 = lp[1, mapvals[p0.revision_mappings], (), (), ($1), false]
$3 = (elb[2].guid == lpv[$2, $1, elb[1].revision_mapping.guid])
$4 = (elb[2].value == lpv[$2, $1, elb[1].revision_mapping.value])
$5 = if !$3: true
  else if !$4: true
  else false
$6 = lp[2, skip[gen[mapvals[p0.revision_mappings], $1, elb[1].revision_mapping, 1], 1], (), (), ($5), false]
$7 = lexit[$6, $5]
=> if !lexit[$2, $1]: None
else if $7: None
else Some(lpv[$2, $1, elb[1].revision_mapping])

## crate::fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_id
$1 = mapget(p0.revision_mappings, p1)
=> if !is1($1): None
else Some($1.some.revision_mapping)

