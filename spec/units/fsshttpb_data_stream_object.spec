## crate::fsshttpb::data::stream_object::ObjectHeader::has_end_16
$1 = reader::Reader::bytes(*p0)
$2 = if (u8{idx[$1, 0][0:1]} == 0): false
  else if (u8{idx[$1, 0][1:2]} == 0): false
  else ((discr[p1, isize, fsshttpb::data::object_types::ObjectType] as u16) == u16{idx[$1, 0][2:8]|idx[$1, 1][0:8]<<6})
=> if (len[$1] < 2): Err(E)
else Ok($2)
state p0: => *p0

## crate::fsshttpb::data::stream_object::ObjectHeader::has_end_8
$1 = reader::Reader::bytes(*p0)
$2 = if (u8{idx[$1, 0][0:1]} == 0): false
  else if !(u8{idx[$1, 0][1:2]} == 0): false
  else ((discr[p1, isize, fsshttpb::data::object_types::ObjectType] as u8) == u8{idx[$1, 0][2:8]})
=> if (len[$1] == 0): Err(E)
else Ok($2)
state p0: => *p0

## crate::fsshttpb::data::stream_object::ObjectHeader::parse
$1 = reader::Reader::bytes(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse_32(*p0)
$3 = fsshttpb::data::stream_object::ObjectHeader::parse_16(*p0)
=> if (len[$1] == 0): Err(E)
else if !(u8{idx[$1, 0][0:1]} == 0): Err(E)
else if !(u8{idx[$1, 0][1:2]} == 0): $2
else $3
state p0: $1 = reader::Reader::bytes(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::parse_32(*p0)
$3 = fsshttpb::data::stream_object::ObjectHeader::parse_16(*p0)
=> if !(u8{idx[$1, 0][1:2]} == 0): $2'
else $3'

## crate::fsshttpb::data::stream_object::ObjectHeader::parse_16
$1 = reader::Reader::get_u16(*p0)
$2 = (u8{$1.ok[3:9]} == 7)
$3 = if !(u8{$1.ok[2:3]} == 0): true
  else false
$4 = (u8{$1.ok[3:9]} == 26)
$5 = (u8{$1.ok[3:9]} == 10)
$6 = (u8{$1.ok[3:9]} == 2)
$7 = (u8{$1.ok[3:9]} == 22)
$8 = (u8{$1.ok[3:9]} == 28)
$9 = (u8{$1.ok[3:9]} == 3)
$10 = (u8{$1.ok[3:9]} == 17)
$11 = (u8{$1.ok[3:9]} == 30)
$12 = (u8{$1.ok[3:9]} == 13)
$13 = (u8{$1.ok[3:9]} == 24)
$14 = (u8{$1.ok[3:9]} == 12)
$15 = (u8{$1.ok[3:9]} == 5)
$16 = (u8{$1.ok[3:9]} == 14)
$17 = (u8{$1.ok[3:9]} == 21)
$18 = (u8{$1.ok[3:9]} == 11)
$19 = (u8{$1.ok[3:9]} == 1)
$20 = (u8{$1.ok[3:9]} == 25)
$21 = if $2: ObjectType::StorageManifestRoot
  else if $4: ObjectType::RevisionManifest
  else if $5: ObjectType::RevisionManifestRoot
  else if $6: ObjectType::ObjectDataBlob
  else if $7: ObjectType::ObjectGroupDataObject
  else if $8: ObjectType::ObjectGroupBlobReference
  else if $9: ObjectType::ObjectGroupDataExcluded
  else if $10: ObjectType::StorageIndexManifestMapping
  else if $11: ObjectType::ObjectGroupData
  else if $12: ObjectType::StorageIndexRevisionMapping
  else if $13: ObjectType::ObjectGroupObject
  else if $14: ObjectType::StorageManifest
  else if $15: ObjectType::ObjectGroupDataBlob
  else if $16: ObjectType::StorageIndexCellMapping
  else if $17: ObjectType::DataElementPackage
  else if $18: ObjectType::CellManifest
  else if $19: ObjectType::DataElement
  else if $20: ObjectType::RevisionManifestGroupReference
  else ObjectType::ObjectGroupDeclaration
=> if !(u8{$1.ok[0:1]} == 0): Err(E)
else if $2: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $4: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $5: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $6: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $7: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $8: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $9: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $10: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $11: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $12: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $13: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $14: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $15: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $16: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $17: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $18: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $19: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if $20: 
  if !(u8{$1.ok[1:2]} == 0): Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
else if !(u8{$1.ok[3:9]} == 29): Err(E)
else if !(u8{$1.ok[1:2]} == 0): Err(E)
else if is1($1): Err(E)
else Ok(ObjectHeader{compound: $3, object_type: $21, length: u64{$1.ok[9:16]}})
state p0: $1 = reader::Reader::get_u16(*p0)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::parse_32
$1 = reader::Reader::get_u32(*p0)
$2 = (u16{$1.ok[3:17]} == 5)
$3 = (u8{$1.ok[1:2]} == 0)
$4 = (u16{$1.ok[17:32]} == 32767)
$5 = (u8{$1.ok[0:1]} == 0)
$6 = if !(u8{$1.ok[2:3]} == 0): true
  else false
$7 = (u16{$1.ok[3:17]} == 13)
$8 = (u16{$1.ok[3:17]} == 11)
$9 = (u16{$1.ok[3:17]} == 1)
$10 = (u16{$1.ok[3:17]} == 14)
$11 = (u16{$1.ok[3:17]} == 12)
$12 = (u16{$1.ok[3:17]} == 120)
$13 = (u16{$1.ok[3:17]} == 3)
$14 = (u16{$1.ok[3:17]} == 22)
$15 = (u16{$1.ok[3:17]} == 106)
$16 = (u16{$1.ok[3:17]} == 30)
$17 = (u16{$1.ok[3:17]} == 121)
$18 = (u16{$1.ok[3:17]} == 28)
$19 = (u16{$1.ok[3:17]} == 7)
$20 = (u16{$1.ok[3:17]} == 29)
$21 = (u16{$1.ok[3:17]} == 2)
$22 = (u16{$1.ok[3:17]} == 24)
$23 = (u16{$1.ok[3:17]} == 10)
$24 = (u16{$1.ok[3:17]} == 17)
$25 = (u16{$1.ok[3:17]} == 21)
$26 = (u16{$1.ok[3:17]} == 25)
$27 = (u16{$1.ok[3:17]} == 122)
$28 = if $2: ObjectType::ObjectGroupDataBlob
  else if $7: ObjectType::StorageIndexRevisionMapping
  else if $8: ObjectType::CellManifest
  else if $9: ObjectType::DataElement
  else if $10: ObjectType::StorageIndexCellMapping
  else if $11: ObjectType::StorageManifest
  else if $12: ObjectType::ObjectGroupMetadata
  else if $13: ObjectType::ObjectGroupDataExcluded
  else if $14: ObjectType::ObjectGroupDataObject
  else if $15: ObjectType::DataElementFragment
  else if $16: ObjectType::ObjectGroupData
  else if $17: ObjectType::ObjectGroupMetadataBlock
  else if $18: ObjectType::ObjectGroupBlobReference
  else if $19: ObjectType::StorageManifestRoot
  else if $20: ObjectType::ObjectGroupDeclaration
  else if $21: ObjectType::ObjectDataBlob
  else if $22: ObjectType::ObjectGroupObject
  else if $23: ObjectType::RevisionManifestRoot
  else if $24: ObjectType::StorageIndexManifestMapping
  else if $25: ObjectType::DataElementPackage
  else if $26: ObjectType::RevisionManifestGroupReference
  else if !$27: ObjectType::RevisionManifest
  else ObjectType::OneNotePackaging
$29 = fsshttpb::data::compact_u64::CompactU64::parse($1')
$30 = fsshttpb::data::compact_u64::CompactU64::value($29.ok)
$31 = if !$4: u64{$1.ok[17:32]}
  else $30
$32 = (u16{$1.ok[3:17]} == 26)
=> if $2: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $7: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $8: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $9: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $10: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $11: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $12: 
  if $3: Err(E)
  else if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $3: Err(E)
else if $13: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $14: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $15: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $16: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $17: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $18: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $19: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $20: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $21: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $22: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $23: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $24: 
  if !$4: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if !$4: 
  if $25: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if $26: 
    if !$5: Err(E)
    else if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$5: Err(E)
  else if $27: 
    if is1($1): Err(E)
    else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
  else if !$32: Err(E)
  else if is1($1): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $25: 
  if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if $26: 
  if !$5: Err(E)
  else if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if !$5: Err(E)
else if $27: 
  if is1($1): Err(E)
  else if is1($29): Err(E)
  else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
else if !$32: Err(E)
else if is1($1): Err(E)
else if is1($29): Err(E)
else Ok(ObjectHeader{compound: $6, object_type: $28, length: $31})
state p0: $1 = reader::Reader::get_u32(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::parse($1')
=> if !(u16{$1.ok[17:32]} == 32767): $1'
else $2'

## crate::fsshttpb::data::stream_object::ObjectHeader::parse_end_16
$1 = reader::Reader::get_u16(*p0)
$2 = (u16{$1.ok[2:16]} == 121)
$3 = (u8{$1.ok[1:2]} == 0)
$4 = (u16{$1.ok[2:16]} == 106)
$5 = (u16{$1.ok[2:16]} == 7)
$6 = (u16{$1.ok[2:16]} == 29)
$7 = (u16{$1.ok[2:16]} == 30)
$8 = (u16{$1.ok[2:16]} == 1)
$9 = (u16{$1.ok[2:16]} == 5)
$10 = (u16{$1.ok[2:16]} == 13)
$11 = (u16{$1.ok[2:16]} == 3)
$12 = (u16{$1.ok[2:16]} == 120)
$13 = (u16{$1.ok[2:16]} == 12)
$14 = (u16{$1.ok[2:16]} == 25)
$15 = (u16{$1.ok[2:16]} == 122)
$16 = (u16{$1.ok[2:16]} == 11)
$17 = (u16{$1.ok[2:16]} == 24)
$18 = (u16{$1.ok[2:16]} == 28)
$19 = (u16{$1.ok[2:16]} == 22)
$20 = (u16{$1.ok[2:16]} == 2)
$21 = (u16{$1.ok[2:16]} == 10)
$22 = (u16{$1.ok[2:16]} == 26)
$23 = (u16{$1.ok[2:16]} == 14)
$24 = (u16{$1.ok[2:16]} == 17)
$25 = if $2: ObjectType::ObjectGroupMetadataBlock
  else if $4: ObjectType::DataElementFragment
  else if $5: ObjectType::StorageManifestRoot
  else if $6: ObjectType::ObjectGroupDeclaration
  else if $7: ObjectType::ObjectGroupData
  else if $8: ObjectType::DataElement
  else if $9: ObjectType::ObjectGroupDataBlob
  else if $10: ObjectType::StorageIndexRevisionMapping
  else if $11: ObjectType::ObjectGroupDataExcluded
  else if $12: ObjectType::ObjectGroupMetadata
  else if $13: ObjectType::StorageManifest
  else if $14: ObjectType::RevisionManifestGroupReference
  else if $15: ObjectType::OneNotePackaging
  else if $16: ObjectType::CellManifest
  else if $17: ObjectType::ObjectGroupObject
  else if $18: ObjectType::ObjectGroupBlobReference
  else if $19: ObjectType::ObjectGroupDataObject
  else if $20: ObjectType::ObjectDataBlob
  else if $21: ObjectType::RevisionManifestRoot
  else if $22: ObjectType::RevisionManifest
  else if $23: ObjectType::StorageIndexCellMapping
  else if $24: ObjectType::StorageIndexManifestMapping
  else ObjectType::DataElementPackage
=> if (u8{$1.ok[0:1]} == 0): Err(E)
else if $2: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $4: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $5: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $6: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $7: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $8: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $9: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $10: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $11: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $12: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $13: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $14: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $15: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $16: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $17: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $18: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $19: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $20: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $21: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $22: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $23: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $24: 
  if $3: Err(E)
  else if is1($1): Err(E)
  else Ok($25)
else if $3: Err(E)
else if !(u16{$1.ok[2:16]} == 21): Err(E)
else if is1($1): Err(E)
else Ok($25)
state p0: $1 = reader::Reader::get_u16(*p0)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::parse_end_8
$1 = reader::Reader::get_u8(*p0)
$2 = (u8{$1.ok[2:8]} == 26)
$3 = (u8{$1.ok[0:1]} == 0)
$4 = (u8{$1.ok[1:2]} == 0)
$5 = (u8{$1.ok[2:8]} == 5)
$6 = (u8{$1.ok[2:8]} == 28)
$7 = (u8{$1.ok[2:8]} == 2)
$8 = (u8{$1.ok[2:8]} == 29)
$9 = (u8{$1.ok[2:8]} == 21)
$10 = (u8{$1.ok[2:8]} == 3)
$11 = (u8{$1.ok[2:8]} == 30)
$12 = (u8{$1.ok[2:8]} == 17)
$13 = (u8{$1.ok[2:8]} == 22)
$14 = (u8{$1.ok[2:8]} == 10)
$15 = (u8{$1.ok[2:8]} == 24)
$16 = (u8{$1.ok[2:8]} == 11)
$17 = (u8{$1.ok[2:8]} == 1)
$18 = (u8{$1.ok[2:8]} == 25)
$19 = (u8{$1.ok[2:8]} == 13)
$20 = (u8{$1.ok[2:8]} == 12)
$21 = (u8{$1.ok[2:8]} == 7)
$22 = if $2: ObjectType::RevisionManifest
  else if $5: ObjectType::ObjectGroupDataBlob
  else if $6: ObjectType::ObjectGroupBlobReference
  else if $7: ObjectType::ObjectDataBlob
  else if $8: ObjectType::ObjectGroupDeclaration
  else if $9: ObjectType::DataElementPackage
  else if $10: ObjectType::ObjectGroupDataExcluded
  else if $11: ObjectType::ObjectGroupData
  else if $12: ObjectType::StorageIndexManifestMapping
  else if $13: ObjectType::ObjectGroupDataObject
  else if $14: ObjectType::RevisionManifestRoot
  else if $15: ObjectType::ObjectGroupObject
  else if $16: ObjectType::CellManifest
  else if $17: ObjectType::DataElement
  else if $18: ObjectType::RevisionManifestGroupReference
  else if $19: ObjectType::StorageIndexRevisionMapping
  else if $20: ObjectType::StorageManifest
  else if !$21: ObjectType::StorageIndexCellMapping
  else ObjectType::StorageManifestRoot
=> if $2: 
  if $3: Err(E)
  else if !$4: Err(E)
  else if is1($1): Err(E)
  else Ok($22)
else if $5: 
  if $3: Err(E)
  else if !$4: Err(E)
  else if is1($1): Err(E)
  else Ok($22)
else if $3: Err(E)
else if !$4: Err(E)
else if $6: 
  if is1($1): Err(E)
  else Ok($22)
else if $7: 
  if is1($1): Err(E)
  else Ok($22)
else if $8: 
  if is1($1): Err(E)
  else Ok($22)
else if $9: 
  if is1($1): Err(E)
  else Ok($22)
else if $10: 
  if is1($1): Err(E)
  else Ok($22)
else if $11: 
  if is1($1): Err(E)
  else Ok($22)
else if $12: 
  if is1($1): Err(E)
  else Ok($22)
else if $13: 
  if is1($1): Err(E)
  else Ok($22)
else if $14: 
  if is1($1): Err(E)
  else Ok($22)
else if $15: 
  if is1($1): Err(E)
  else Ok($22)
else if $16: 
  if is1($1): Err(E)
  else Ok($22)
else if $17: 
  if is1($1): Err(E)
  else Ok($22)
else if $18: 
  if is1($1): Err(E)
  else Ok($22)
else if $19: 
  if is1($1): Err(E)
  else Ok($22)
else if $20: 
  if is1($1): Err(E)
  else Ok($22)
else if $21: 
  if is1($1): Err(E)
  else Ok($22)
else if !(u8{$1.ok[2:8]} == 14): Err(E)
else if is1($1): Err(E)
else Ok($22)
state p0: $1 = reader::Reader::get_u8(*p0)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse)
=> $1
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_16
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_16)
=> $1
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_16)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_32
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_32)
=> $1
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_start(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_32)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_end
$1 = apply(p2, *p0)
=> if !(p1 == $1.ok): Err(E)
else if !is1($1): Ok(unit)
else Err(E)
state p0: $1 = apply(p2, *p0)
=> $1'1

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_end_16
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_end_16)
=> $1
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_end_16)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_end_8)
=> $1
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end(*p0, p1, fsshttpb::data::stream_object::ObjectHeader::parse_end_8)
=> $1'

## crate::fsshttpb::data::stream_object::ObjectHeader::try_parse_start
$1 = apply(p2, *p0)
=> if !(p1 == $1.ok.object_type): Err(E)
else if !is1($1): Ok(unit)
else Err(E)
state p0: $1 = apply(p2, *p0)
=> $1'1

