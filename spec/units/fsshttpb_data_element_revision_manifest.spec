## crate::fsshttpb::data_element::revision_manifest::<impl fsshttpb::data_element::DataElement>::parse_revision_manifest
$1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::RevisionManifest)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::exguid::ExGuid::parse($2')
$4 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$5 = fsshttpb::data::stream_object::ObjectHeader::parse_16($4')
$6 = fsshttpb::data_element::revision_manifest::RevisionManifestRootDeclare::parse($5')
$7 = fsshttpb::data::exguid::ExGuid::parse($5')
$8 = if !is16($5.ok.object_type): $6'
  else $7'
$9 = if !$4.ok: false
  else if !is1($4): true
  else false
$10 = if $4.ok: is1($4)
  else if is1($4): true
  else if is1($5): true
  else if is16($5.ok.object_type): is1($7)
  else if !is17($5.ok.object_type): true
  else is1($6)
$11 = lp[1, unit, ($3'), ($8), ($9), $10]
$12 = ldone[$11]
$13 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$11, $9, $4'], ObjectType::DataElement)
$14 = if is16($5.ok.object_type): lvb[1, 1]
  else push[lvb[1, 1], $6.ok]
$15 = lp[1, unit, ($3', vecnil), ($8, $14), ($9), $10]
$16 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 1], ObjectType::DataElement)
$17 = fsshttpb::data::stream_object::ObjectHeader::parse_16($16')
$18 = fsshttpb::data::exguid::ExGuid::parse($17')
$19 = if !is16($17.ok.object_type): lvb[1, 0]
  else push[lvb[1, 0], $18.ok]
$20 = fsshttpb::data_element::revision_manifest::RevisionManifestRootDeclare::parse($17')
$21 = if is16($17.ok.object_type): $18'
  else $20'
$22 = if !$16.ok: false
  else if !is1($16): true
  else false
$23 = if $16.ok: is1($16)
  else if is1($16): true
  else if is1($17): true
  else if is17($17.ok.object_type): is1($20)
  else if !is16($17.ok.object_type): true
  else is1($18)
$24 = lp[1, unit, (vecnil, $3'), ($19, $21), ($22), $23]
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !$12: Err(E)
else if is1($13): Err(E)
else Ok(RevisionManifest{rev_id: $2.ok, base_rev_id: $3.ok, root_declare: lpv[$15, $9, lvb[1, 1]], group_references: lpv[$24, $22, lvb[1, 0]]})
state p0: $1 = fsshttpb::data::stream_object::ObjectHeader::try_parse_16(*p0, ObjectType::RevisionManifest)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
$3 = fsshttpb::data::exguid::ExGuid::parse($2')
$4 = fsshttpb::data::stream_object::ObjectHeader::has_end_8(lvb[1, 0], ObjectType::DataElement)
$5 = fsshttpb::data::stream_object::ObjectHeader::parse_16($4')
$6 = fsshttpb::data_element::revision_manifest::RevisionManifestRootDeclare::parse($5')
$7 = fsshttpb::data::exguid::ExGuid::parse($5')
$8 = if !is16($5.ok.object_type): $6'
  else $7'
$9 = if !$4.ok: false
  else if !is1($4): true
  else false
$10 = if $4.ok: is1($4)
  else if is1($4): true
  else if is1($5): true
  else if is16($5.ok.object_type): is1($7)
  else if !is17($5.ok.object_type): true
  else is1($6)
$11 = lp[1, unit, ($3'), ($8), ($9), $10]
$12 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_8(lpv[$11, $9, $4'], ObjectType::DataElement)
=> $12'

## crate::fsshttpb::data_element::revision_manifest::RevisionManifestRootDeclare::parse
$1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else Ok(RevisionManifestRootDeclare{root_id: $1.ok, object_id: $2.ok})
state p0: $1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
=> $2'

