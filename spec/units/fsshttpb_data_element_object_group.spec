## crate::<fsshttpb::data_element::object_group::DebugSize as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[192, 6, 32, 98, 121, 116, 101, 115, 0], [fmtarg[display, p0.0]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[192, 6, 32, 98, 121, 116, 101, 115, 0], [fmtarg[display, p0.0]]])
=> $1'

## crate::<fsshttpb::data_element::object_group::ObjectGroupData as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::debug_struct(*p1, 'ObjectExcluded')
$2 = std::fmt::DebugStruct::field($1, 'objects', p0.objects)
$3 = std::fmt::DebugStruct::field($2, 'cells', p0.cells)
$4 = std::fmt::DebugStruct::field($3, 'blob', p0.blob)
$5 = std::fmt::DebugStruct::finish($4)
$6 = std::fmt::DebugStruct::field($1, 'group', p0.group)
$7 = std::fmt::DebugStruct::field($6, 'cells', p0.cells)
$8 = std::fmt::DebugStruct::field($7, 'size', p0.size)
$9 = std::fmt::DebugStruct::finish($8)
$10 = std::fmt::Formatter::debug_struct(*p1, 'Object')
$11 = std::fmt::DebugStruct::field($10, 'group', p0.group)
$12 = std::fmt::DebugStruct::field($11, 'cells', p0.cells)
$13 = std::fmt::DebugStruct::field($12, 'data', DebugSize(len[p0.data]))
$14 = std::fmt::DebugStruct::finish($13)
=> if is2(p0): $5
else if is1(p0): $9
else $14
state p1: $1 = std::fmt::Formatter::debug_struct(*p1, 'ObjectExcluded')
$2 = std::fmt::Formatter::debug_struct(*p1, 'Object')
=> if is2(p0): $1'
else if !is1(p0): $2'
else $1'

## crate::fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group
$1 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_declarations(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse($1')
$3 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_metadata($2')
$4 = fsshttpb::data::stream_object::ObjectHeader::parse($3')
$5 = if !is12($2.ok.object_type): $2'
  else $4'
$6 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_data($5)
$7 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($6', ObjectType::DataElement)
$8 = if !is12($2.ok.object_type): vecnil
  else $3.ok
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if !is12($2.ok.object_type): 
  if !is6($2.ok.object_type): Err(E)
  else if is1($6): Err(E)
  else if is1($7): Err(E)
  else Ok(ObjectGroup{declarations: $1.ok, metadata: $8, objects: $6.ok})
else if is1($3): Err(E)
else if is1($4): Err(E)
else if !is6($4.ok.object_type): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else Ok(ObjectGroup{declarations: $1.ok, metadata: $8, objects: $6.ok})
state p0: $1 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_declarations(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse($1')
$3 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_metadata($2')
$4 = fsshttpb::data::stream_object::ObjectHeader::parse($3')
$5 = if !is12($2.ok.object_type): $2'
  else $4'
$6 = fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_data($5)
$7 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8($6', ObjectType::DataElement)
=> $7'

## crate::fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_data
$1 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::ObjectGroupData)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse($1')
$3 = fsshttpb::data::exguid::ExGuid::parse_array($2')
$4 = fsshttpb::data::cell_id::CellId::parse_array($3')
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$7 = fsshttpb::data::binary_item::BinaryItem::parse($4')
$8 = if is5($2.ok.object_type): $5'
  else if !is9($2.ok.object_type): $6'
  else $7'
$9 = if !$1.ok: false
  else if !is1($1): true
  else false
$10 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is5($2.ok.object_type): 
    if is1($3): true
    else if is1($4): true
    else is1($5)
  else if is8($2.ok.object_type): 
    if is1($3): true
    else if is1($4): true
    else is1($6)
  else if !is9($2.ok.object_type): true
  else if is1($3): true
  else if is1($4): true
  else is1($7)
$11 = lp[1, unit, (*p0), ($8), ($9), $10]
$12 = ldone[$11]
$13 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$11, $9, $1'], ObjectType::ObjectGroupData)
$14 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::ObjectGroupData)
$15 = fsshttpb::data::stream_object::ObjectHeader::parse($14')
$16 = fsshttpb::data::exguid::ExGuid::parse_array($15')
$17 = fsshttpb::data::cell_id::CellId::parse_array($16')
$18 = fsshttpb::data::binary_item::BinaryItem::parse($17')
$19 = fsshttpb::data::binary_item::BinaryItem::value($18.ok)
$20 = fsshttpb::data::exguid::ExGuid::parse($17')
$21 = fsshttpb::data::compact_u64::CompactU64::parse($17')
$22 = fsshttpb::data::compact_u64::CompactU64::value($21.ok)
$23 = if is9($15.ok.object_type): push[lvb[1, 0], ObjectGroupData::Object{group: $16.ok, cells: $17.ok, data: $19}]
  else if is5($15.ok.object_type): push[lvb[1, 0], ObjectGroupData::BlobReference{objects: $16.ok, cells: $17.ok, blob: $20.ok}]
  else push[lvb[1, 0], ObjectGroupData::ObjectExcluded{group: $16.ok, cells: $17.ok, size: $22}]
$24 = if is9($15.ok.object_type): $18'
  else if is5($15.ok.object_type): $20'
  else $21'
$25 = if !$14.ok: false
  else if !is1($14): true
  else false
$26 = if $14.ok: is1($14)
  else if is1($14): true
  else if is1($15): true
  else if is8($15.ok.object_type): 
    if is1($16): true
    else if is1($17): true
    else is1($21)
  else if is9($15.ok.object_type): 
    if is1($16): true
    else if is1($17): true
    else is1($18)
  else if !is5($15.ok.object_type): true
  else if is1($16): true
  else if is1($17): true
  else is1($20)
$27 = lp[1, unit, (vecnil, *p0), ($23, $24), ($25), $26]
=> if !$12: Err(E)
else if is1($13): Err(E)
else Ok(lpv[$27, $25, lvb[1, 0]])
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::ObjectGroupData)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse($1')
$3 = fsshttpb::data::exguid::ExGuid::parse_array($2')
$4 = fsshttpb::data::cell_id::CellId::parse_array($3')
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$7 = fsshttpb::data::binary_item::BinaryItem::parse($4')
$8 = if is5($2.ok.object_type): $5'
  else if !is9($2.ok.object_type): $6'
  else $7'
$9 = if !$1.ok: false
  else if !is1($1): true
  else false
$10 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is5($2.ok.object_type): 
    if is1($3): true
    else if is1($4): true
    else is1($5)
  else if is8($2.ok.object_type): 
    if is1($3): true
    else if is1($4): true
    else is1($6)
  else if !is9($2.ok.object_type): true
  else if is1($3): true
  else if is1($4): true
  else is1($7)
$11 = lp[1, unit, (*p0), ($8), ($9), $10]
$12 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$11, $9, $1'], ObjectType::ObjectGroupData)
=> $12'

## crate::fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_declarations
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::ObjectGroupDeclaration)
$2 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::ObjectGroupDeclaration)
$3 = fsshttpb::data::stream_object::ObjectHeader::parse($2')
$4 = fsshttpb::data::exguid::ExGuid::parse($3')
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::parse($5')
$7 = fsshttpb::data::compact_u64::CompactU64::parse($6')
$8 = fsshttpb::data::compact_u64::CompactU64::parse($7')
$9 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$10 = fsshttpb::data::compact_u64::CompactU64::parse($9')
$11 = fsshttpb::data::compact_u64::CompactU64::parse($10')
$12 = fsshttpb::data::compact_u64::CompactU64::parse($11')
$13 = if is7($3.ok.object_type): $8'
  else $12'
$14 = if !$2.ok: false
  else if !is1($2): true
  else false
$15 = if $2.ok: is1($2)
  else if is1($2): true
  else if is1($3): true
  else if is7($3.ok.object_type): 
    if is1($4): true
    else if is1($5): true
    else if is1($6): true
    else if is1($7): true
    else is1($8)
  else if !is13($3.ok.object_type): true
  else if is1($4): true
  else if is1($9): true
  else if is1($10): true
  else if is1($11): true
  else is1($12)
$16 = lp[1, unit, ($1'), ($13), ($14), $15]
$17 = ldone[$16]
$18 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$16, $14, $2'], ObjectType::ObjectGroupDeclaration)
$19 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::ObjectGroupDeclaration)
$20 = fsshttpb::data::stream_object::ObjectHeader::parse($19')
$21 = fsshttpb::data::exguid::ExGuid::parse($20')
$22 = fsshttpb::data::exguid::ExGuid::parse($21')
$23 = fsshttpb::data::compact_u64::CompactU64::parse($22')
$24 = fsshttpb::data::compact_u64::CompactU64::value($23.ok)
$25 = fsshttpb::data::compact_u64::CompactU64::parse($23')
$26 = fsshttpb::data::compact_u64::CompactU64::value($25.ok)
$27 = fsshttpb::data::compact_u64::CompactU64::parse($25')
$28 = fsshttpb::data::compact_u64::CompactU64::value($27.ok)
$29 = push[lvb[1, 0], ObjectGroupDeclaration::Blob{object_id: $21.ok, blob_id: $22.ok, partition_id: $24, object_reference_count: $26, cell_reference_count: $28}]
$30 = fsshttpb::data::compact_u64::CompactU64::parse($21')
$31 = fsshttpb::data::compact_u64::CompactU64::value($30.ok)
$32 = fsshttpb::data::compact_u64::CompactU64::parse($30')
$33 = fsshttpb::data::compact_u64::CompactU64::value($32.ok)
$34 = fsshttpb::data::compact_u64::CompactU64::parse($32')
$35 = fsshttpb::data::compact_u64::CompactU64::value($34.ok)
$36 = fsshttpb::data::compact_u64::CompactU64::parse($34')
$37 = fsshttpb::data::compact_u64::CompactU64::value($36.ok)
$38 = push[lvb[1, 0], ObjectGroupDeclaration::Object{object_id: $21.ok, partition_id: $31, data_size: $33, object_reference_count: $35, cell_reference_count: $37}]
$39 = if is7($20.ok.object_type): $29
  else $38
$40 = if !is7($20.ok.object_type): $36'
  else $27'
$41 = if !$19.ok: false
  else if !is1($19): true
  else false
$42 = if $19.ok: is1($19)
  else if is1($19): true
  else if is1($20): true
  else if is13($20.ok.object_type): 
    if is1($21): true
    else if is1($30): true
    else if is1($32): true
    else if is1($34): true
    else is1($36)
  else if !is7($20.ok.object_type): true
  else if is1($21): true
  else if is1($22): true
  else if is1($23): true
  else if is1($25): true
  else is1($27)
$43 = lp[1, unit, (vecnil, $1'), ($39, $40), ($41), $42]
=> if is1($1): Err(E)
else if !$17: Err(E)
else if is1($18): Err(E)
else Ok(lpv[$43, $41, lvb[1, 0]])
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse(*p0, ObjectType::ObjectGroupDeclaration)
$2 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::ObjectGroupDeclaration)
$3 = fsshttpb::data::stream_object::ObjectHeader::parse($2')
$4 = fsshttpb::data::exguid::ExGuid::parse($3')
$5 = fsshttpb::data::exguid::ExGuid::parse($4')
$6 = fsshttpb::data::compact_u64::CompactU64::parse($5')
$7 = fsshttpb::data::compact_u64::CompactU64::parse($6')
$8 = fsshttpb::data::compact_u64::CompactU64::parse($7')
$9 = fsshttpb::data::compact_u64::CompactU64::parse($4')
$10 = fsshttpb::data::compact_u64::CompactU64::parse($9')
$11 = fsshttpb::data::compact_u64::CompactU64::parse($10')
$12 = fsshttpb::data::compact_u64::CompactU64::parse($11')
$13 = if is7($3.ok.object_type): $8'
  else $12'
$14 = if !$2.ok: false
  else if !is1($2): true
  else false
$15 = if $2.ok: is1($2)
  else if is1($2): true
  else if is1($3): true
  else if is7($3.ok.object_type): 
    if is1($4): true
    else if is1($5): true
    else if is1($6): true
    else if is1($7): true
    else is1($8)
  else if !is13($3.ok.object_type): true
  else if is1($4): true
  else if is1($9): true
  else if is1($10): true
  else if is1($11): true
  else is1($12)
$16 = lp[1, unit, ($1'), ($13), ($14), $15]
$17 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$16, $14, $2'], ObjectType::ObjectGroupDeclaration)
=> $17'

## crate::fsshttpb::data_element::object_group::<impl fsshttpb::data_element::DataElement>::parse_object_group_metadata
$1 = fsshttpb::data::stream_object::ObjectHeader::has_end_16(lvb[1, 0], ObjectType::ObjectGroupMetadataBlock)
$2 = fsshttpb::data::stream_object::ObjectHeader::try_parse_32($1', ObjectType::ObjectGroupMetadata)
$3 = fsshttpb::data::compact_u64::CompactU64::parse($2')
$4 = if !$1.ok: false
  else if !is1($1): true
  else false
$5 = fsshttpb::data::compact_u64::CompactU64::value($3.ok)
$6 = fsshttpb::data_element::object_group::ObjectChangeFrequency::parse($5)
$7 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is1($3): true
  else is1($6)
$8 = lp[1, unit, (*p0), ($3'), ($4), $7]
$9 = ldone[$8]
$10 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_16(lpv[$8, $4, $1'], ObjectType::ObjectGroupMetadataBlock)
$11 = fsshttpb::data::stream_object::ObjectHeader::has_end_16(lvb[1, 1], ObjectType::ObjectGroupMetadataBlock)
$12 = fsshttpb::data::stream_object::ObjectHeader::try_parse_32($11', ObjectType::ObjectGroupMetadata)
$13 = fsshttpb::data::compact_u64::CompactU64::parse($12')
$14 = fsshttpb::data::compact_u64::CompactU64::value($13.ok)
$15 = fsshttpb::data_element::object_group::ObjectChangeFrequency::parse($14)
$16 = if !$11.ok: false
  else if !is1($11): true
  else false
$17 = if $11.ok: is1($11)
  else if is1($11): true
  else if is1($12): true
  else if is1($13): true
  else is1($15)
$18 = lp[1, unit, (vecnil, *p0), (push[lvb[1, 0], ObjectGroupMetadata{change_frequency: $15.ok}], $13'), ($16), $17]
=> if !$9: Err(E)
else if is1($10): Err(E)
else Ok(lpv[$18, $16, lvb[1, 0]])
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::has_end_16(lvb[1, 0], ObjectType::ObjectGroupMetadataBlock)
$2 = fsshttpb::data::stream_object::ObjectHeader::try_parse_32($1', ObjectType::ObjectGroupMetadata)
$3 = fsshttpb::data::compact_u64::CompactU64::parse($2')
$4 = if !$1.ok: false
  else if !is1($1): true
  else false
$5 = fsshttpb::data::compact_u64::CompactU64::value($3.ok)
$6 = fsshttpb::data_element::object_group::ObjectChangeFrequency::parse($5)
$7 = if $1.ok: is1($1)
  else if is1($1): true
  else if is1($2): true
  else if is1($3): true
  else is1($6)
$8 = lp[1, unit, (*p0), ($3'), ($4), $7]
$9 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_16(lpv[$8, $4, $1'], ObjectType::ObjectGroupMetadataBlock)
=> $9'

## crate::fsshttpb::data_element::object_group::ObjectChangeFrequency::parse
$1 = if (p0 == 2): ObjectChangeFrequency::Infrequent
  else if (p0 == 0): ObjectChangeFrequency::Unknown
  else if (p0 == 1): ObjectChangeFrequency::Frequent
  else if !(p0 == 3): ObjectChangeFrequency::Custom
  else ObjectChangeFrequency::Independent
=> if (p0 == 4): Ok($1)
else if (p0 == 2): Ok($1)
else if (p0 == 0): Ok($1)
else if (p0 == 1): Ok($1)
else if !(p0 == 3): Err(E)
else Ok($1)

## crate::fsshttpb::data_element::object_group::ObjectGroupDeclaration::object_id
=> if !is1(p0): p0.object_id
else p0.object_id

## crate::fsshttpb::data_element::object_group::ObjectGroupDeclaration::partition_id
=> if !is1(p0): p0.partition_id
else p0.partition_id

