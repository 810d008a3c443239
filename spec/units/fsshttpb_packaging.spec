## crate::fsshttpb::packaging::FileChunkReference64x32::end
=> if ovf[Add, u64, p0.stp, u64{p0.cb[0:32]}]: Err(E)
else Ok((p0.stp +.u64 u64{p0.cb[0:32]}))

## crate::fsshttpb::packaging::OneStorePackaging::parse
$1 = shared::guid::Guid::parse(*p0)
$2 = shared::guid::Guid::parse($1')
$3 = shared::guid::Guid::parse($2')
$4 = shared::guid::Guid::is_nil($3.ok)
$5 = shared::guid::Guid::from_str('109ADD3F-911B-49F5-A5D0-1791EDC8AED8')
$6 = shared::guid::Guid::parse($3')
$7 = ($5.ok == $6.ok)
$8 = fsshttpb::packaging::OneStorePackaging::parse_legacy($6', $1.ok, $2.ok, $3.ok, $6.ok)
$9 = shared::guid::Guid::from_str('638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7')
$10 = ($9.ok == $6.ok)
$11 = reader::Reader::remaining(*p0)
$12 = fsshttpb::packaging::OneStorePackaging::parse_packaging($6', $1.ok, $2.ok, $3.ok, $6.ok, $11)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !$4: 
  if $7: 
    if is1($6): Err(E)
    else $8
  else if !$10: Err(E)
  else if is1($6): Err(E)
  else $8
else if !$7: 
  if !$10: Err(E)
  else if is1($6): Err(E)
  else $8
else if $10: 
  if is1($6): Err(E)
  else $8
else if is1($6): Err(E)
else $12
state p0: $1 = shared::guid::Guid::parse(*p0)
$2 = shared::guid::Guid::parse($1')
$3 = shared::guid::Guid::parse($2')
$4 = shared::guid::Guid::is_nil($3.ok)
$5 = shared::guid::Guid::parse($3')
$6 = fsshttpb::packaging::OneStorePackaging::parse_legacy($5', $1.ok, $2.ok, $3.ok, $5.ok)
$7 = shared::guid::Guid::from_str('109ADD3F-911B-49F5-A5D0-1791EDC8AED8')
$8 = shared::guid::Guid::from_str('638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7')
$9 = reader::Reader::remaining(*p0)
$10 = fsshttpb::packaging::OneStorePackaging::parse_packaging($5', $1.ok, $2.ok, $3.ok, $5.ok, $9)
=> if !$4: $6'
else if !($7.ok == $5.ok): $6'
else if ($8.ok == $5.ok): $6'
else $10'

## crate::fsshttpb::packaging::OneStorePackaging::parse_fcr64x32
$1 = reader::Reader::get_u64(*p0)
$2 = reader::Reader::get_u32($1')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else Ok(FileChunkReference64x32{stp: $1.ok, cb: $2.ok})
state p0: $1 = reader::Reader::get_u64(*p0)
$2 = reader::Reader::get_u32($1')
=> $2'

## crate::fsshttpb::packaging::OneStorePackaging::parse_legacy
$1 = reader::Reader::get_u32(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::try_parse_32($1', ObjectType::OneNotePackaging)
$3 = fsshttpb::data::exguid::ExGuid::parse($2')
$4 = shared::guid::Guid::parse($3')
$5 = fsshttpb::data_element::DataElementPackage::parse($4')
$6 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_16($5', ObjectType::OneNotePackaging)
=> if !($1.ok == 0): Err(E)
else if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else Ok(OneStorePackaging{file_type: p1, file: p2, legacy_file_version: p3, file_format: p4, storage_index: $3.ok, cell_schema: $4.ok, data_element_package: $5.ok})
state p0: $1 = reader::Reader::get_u32(*p0)
$2 = fsshttpb::data::stream_object::ObjectHeader::try_parse_32($1', ObjectType::OneNotePackaging)
$3 = fsshttpb::data::exguid::ExGuid::parse($2')
$4 = shared::guid::Guid::parse($3')
$5 = fsshttpb::data_element::DataElementPackage::parse($4')
$6 = fsshttpb::data::stream_object::ObjectHeader::try_parse_end_16($5', ObjectType::OneNotePackaging)
=> $6'

## crate::fsshttpb::packaging::OneStorePackaging::parse_packaging
$1 = reader::Reader::get_u32(*p0)
$2 = reader::Reader::get_u32($1')
$3 = reader::Reader::get_u32($2')
$4 = reader::Reader::get_u32($3')
$5 = reader::Reader::get_u64($4')
$6 = reader::Reader::get_u64($5')
$7 = reader::Reader::get_u32($6')
$8 = reader::Reader::get_u32($7')
$9 = reader::Reader::get_u64($8')
$10 = reader::Reader::get_u64($9')
$11 = reader::Reader::get_u32($10')
$12 = reader::Reader::get_u8($11')
$13 = reader::Reader::get_u8($12')
$14 = reader::Reader::get_u8($13')
$15 = reader::Reader::get_u8($14')
$16 = shared::guid::Guid::parse($15')
$17 = reader::Reader::get_u32($16')
$18 = fsshttpb::packaging::OneStorePackaging::parse_fcr64x32($17')
$19 = fsshttpb::packaging::OneStorePackaging::parse_fcr64x32($18')
$20 = fsshttpb::packaging::FileChunkReference64x32::end($19.ok)
$21 = reader::Reader::remaining($19')
$22 = ($20.ok < (p5 -.u64 $21))
$23 = ($21 +.u64 $20.ok)
$24 = ($23 -.u64 p5)
$25 = reader::Reader::advance($19', $24)
$26 = shared::guid::Guid::parse($25')
$27 = shared::guid::Guid::parse($26')
$28 = shared::guid::Guid::parse($27')
$29 = shared::guid::Guid::parse($28')
$30 = fsshttpb::packaging::OneStorePackaging::parse_legacy($29', $26.ok, $27.ok, $28.ok, $29.ok)
=> if ($1.ok == 27): 
  if is1($1): Err(E)
  else if ($2.ok == 27): 
    if is1($2): Err(E)
    else if ($3.ok == 27): 
      if is1($3): Err(E)
      else if ($4.ok == 27): 
        if is1($4): Err(E)
        else if is1($5): Err(E)
        else if is1($6): Err(E)
        else if is1($7): Err(E)
        else if is1($8): Err(E)
        else if is1($9): Err(E)
        else if is1($10): Err(E)
        else if is1($11): Err(E)
        else if is1($12): Err(E)
        else if is1($13): Err(E)
        else if is1($14): Err(E)
        else if is1($15): Err(E)
        else if is1($16): Err(E)
        else if is1($17): Err(E)
        else if is1($18): Err(E)
        else if is1($19): Err(E)
        else if $22: Err(E)
        else if is1($20): Err(E)
        else if is1($25): Err(E)
        else if is1($26): Err(E)
        else if is1($27): Err(E)
        else if is1($28): Err(E)
        else if is1($29): Err(E)
        else $30
      else if !($4.ok == 42): Err(E)
      else if is1($4): Err(E)
      else if is1($5): Err(E)
      else if is1($6): Err(E)
      else if is1($7): Err(E)
      else if is1($8): Err(E)
      else if is1($9): Err(E)
      else if is1($10): Err(E)
      else if is1($11): Err(E)
      else if is1($12): Err(E)
      else if is1($13): Err(E)
      else if is1($14): Err(E)
      else if is1($15): Err(E)
      else if is1($16): Err(E)
      else if is1($17): Err(E)
      else if is1($18): Err(E)
      else if is1($19): Err(E)
      else if $22: Err(E)
      else if is1($20): Err(E)
      else if is1($25): Err(E)
      else if is1($26): Err(E)
      else if is1($27): Err(E)
      else if is1($28): Err(E)
      else if is1($29): Err(E)
      else $30
    else if !($3.ok == 42): Err(E)
    else if is1($3): Err(E)
    else if ($4.ok == 27): 
      if is1($4): Err(E)
      else if is1($5): Err(E)
      else if is1($6): Err(E)
      else if is1($7): Err(E)
      else if is1($8): Err(E)
      else if is1($9): Err(E)
      else if is1($10): Err(E)
      else if is1($11): Err(E)
      else if is1($12): Err(E)
      else if is1($13): Err(E)
      else if is1($14): Err(E)
      else if is1($15): Err(E)
      else if is1($16): Err(E)
      else if is1($17): Err(E)
      else if is1($18): Err(E)
      else if is1($19): Err(E)
      else if $22: Err(E)
      else if is1($20): Err(E)
      else if is1($25): Err(E)
      else if is1($26): Err(E)
      else if is1($27): Err(E)
      else if is1($28): Err(E)
      else if is1($29): Err(E)
      else $30
    else if !($4.ok == 42): Err(E)
    else if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($2.ok == 42): Err(E)
  else if is1($2): Err(E)
  else if ($3.ok == 27): 
    if is1($3): Err(E)
    else if ($4.ok == 27): 
      if is1($4): Err(E)
      else if is1($5): Err(E)
      else if is1($6): Err(E)
      else if is1($7): Err(E)
      else if is1($8): Err(E)
      else if is1($9): Err(E)
      else if is1($10): Err(E)
      else if is1($11): Err(E)
      else if is1($12): Err(E)
      else if is1($13): Err(E)
      else if is1($14): Err(E)
      else if is1($15): Err(E)
      else if is1($16): Err(E)
      else if is1($17): Err(E)
      else if is1($18): Err(E)
      else if is1($19): Err(E)
      else if $22: Err(E)
      else if is1($20): Err(E)
      else if is1($25): Err(E)
      else if is1($26): Err(E)
      else if is1($27): Err(E)
      else if is1($28): Err(E)
      else if is1($29): Err(E)
      else $30
    else if !($4.ok == 42): Err(E)
    else if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($3.ok == 42): Err(E)
  else if is1($3): Err(E)
  else if ($4.ok == 27): 
    if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($4.ok == 42): Err(E)
  else if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if is1($7): Err(E)
  else if is1($8): Err(E)
  else if is1($9): Err(E)
  else if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else if is1($13): Err(E)
  else if is1($14): Err(E)
  else if is1($15): Err(E)
  else if is1($16): Err(E)
  else if is1($17): Err(E)
  else if is1($18): Err(E)
  else if is1($19): Err(E)
  else if $22: Err(E)
  else if is1($20): Err(E)
  else if is1($25): Err(E)
  else if is1($26): Err(E)
  else if is1($27): Err(E)
  else if is1($28): Err(E)
  else if is1($29): Err(E)
  else $30
else if !($1.ok == 42): Err(E)
else if is1($1): Err(E)
else if ($2.ok == 27): 
  if is1($2): Err(E)
  else if ($3.ok == 27): 
    if is1($3): Err(E)
    else if ($4.ok == 27): 
      if is1($4): Err(E)
      else if is1($5): Err(E)
      else if is1($6): Err(E)
      else if is1($7): Err(E)
      else if is1($8): Err(E)
      else if is1($9): Err(E)
      else if is1($10): Err(E)
      else if is1($11): Err(E)
      else if is1($12): Err(E)
      else if is1($13): Err(E)
      else if is1($14): Err(E)
      else if is1($15): Err(E)
      else if is1($16): Err(E)
      else if is1($17): Err(E)
      else if is1($18): Err(E)
      else if is1($19): Err(E)
      else if $22: Err(E)
      else if is1($20): Err(E)
      else if is1($25): Err(E)
      else if is1($26): Err(E)
      else if is1($27): Err(E)
      else if is1($28): Err(E)
      else if is1($29): Err(E)
      else $30
    else if !($4.ok == 42): Err(E)
    else if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($3.ok == 42): Err(E)
  else if is1($3): Err(E)
  else if ($4.ok == 27): 
    if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($4.ok == 42): Err(E)
  else if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if is1($7): Err(E)
  else if is1($8): Err(E)
  else if is1($9): Err(E)
  else if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else if is1($13): Err(E)
  else if is1($14): Err(E)
  else if is1($15): Err(E)
  else if is1($16): Err(E)
  else if is1($17): Err(E)
  else if is1($18): Err(E)
  else if is1($19): Err(E)
  else if $22: Err(E)
  else if is1($20): Err(E)
  else if is1($25): Err(E)
  else if is1($26): Err(E)
  else if is1($27): Err(E)
  else if is1($28): Err(E)
  else if is1($29): Err(E)
  else $30
else if !($2.ok == 42): Err(E)
else if is1($2): Err(E)
else if ($3.ok == 27): 
  if is1($3): Err(E)
  else if ($4.ok == 27): 
    if is1($4): Err(E)
    else if is1($5): Err(E)
    else if is1($6): Err(E)
    else if is1($7): Err(E)
    else if is1($8): Err(E)
    else if is1($9): Err(E)
    else if is1($10): Err(E)
    else if is1($11): Err(E)
    else if is1($12): Err(E)
    else if is1($13): Err(E)
    else if is1($14): Err(E)
    else if is1($15): Err(E)
    else if is1($16): Err(E)
    else if is1($17): Err(E)
    else if is1($18): Err(E)
    else if is1($19): Err(E)
    else if $22: Err(E)
    else if is1($20): Err(E)
    else if is1($25): Err(E)
    else if is1($26): Err(E)
    else if is1($27): Err(E)
    else if is1($28): Err(E)
    else if is1($29): Err(E)
    else $30
  else if !($4.ok == 42): Err(E)
  else if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if is1($7): Err(E)
  else if is1($8): Err(E)
  else if is1($9): Err(E)
  else if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else if is1($13): Err(E)
  else if is1($14): Err(E)
  else if is1($15): Err(E)
  else if is1($16): Err(E)
  else if is1($17): Err(E)
  else if is1($18): Err(E)
  else if is1($19): Err(E)
  else if $22: Err(E)
  else if is1($20): Err(E)
  else if is1($25): Err(E)
  else if is1($26): Err(E)
  else if is1($27): Err(E)
  else if is1($28): Err(E)
  else if is1($29): Err(E)
  else $30
else if !($3.ok == 42): Err(E)
else if is1($3): Err(E)
else if ($4.ok == 27): 
  if is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if is1($7): Err(E)
  else if is1($8): Err(E)
  else if is1($9): Err(E)
  else if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else if is1($13): Err(E)
  else if is1($14): Err(E)
  else if is1($15): Err(E)
  else if is1($16): Err(E)
  else if is1($17): Err(E)
  else if is1($18): Err(E)
  else if is1($19): Err(E)
  else if $22: Err(E)
  else if is1($20): Err(E)
  else if is1($25): Err(E)
  else if is1($26): Err(E)
  else if is1($27): Err(E)
  else if is1($28): Err(E)
  else if is1($29): Err(E)
  else $30
else if !($4.ok == 42): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else if is1($18): Err(E)
else if is1($19): Err(E)
else if $22: Err(E)
else if is1($20): Err(E)
else if is1($25): Err(E)
else if is1($26): Err(E)
else if is1($27): Err(E)
else if is1($28): Err(E)
else if is1($29): Err(E)
else $30
state p0: $1 = reader::Reader::get_u32(*p0)
$2 = reader::Reader::get_u32($1')
$3 = reader::Reader::get_u32($2')
$4 = reader::Reader::get_u32($3')
$5 = reader::Reader::get_u64($4')
$6 = reader::Reader::get_u64($5')
$7 = reader::Reader::get_u32($6')
$8 = reader::Reader::get_u32($7')
$9 = reader::Reader::get_u64($8')
$10 = reader::Reader::get_u64($9')
$11 = reader::Reader::get_u32($10')
$12 = reader::Reader::get_u8($11')
$13 = reader::Reader::get_u8($12')
$14 = reader::Reader::get_u8($13')
$15 = reader::Reader::get_u8($14')
$16 = shared::guid::Guid::parse($15')
$17 = reader::Reader::get_u32($16')
$18 = fsshttpb::packaging::OneStorePackaging::parse_fcr64x32($17')
$19 = fsshttpb::packaging::OneStorePackaging::parse_fcr64x32($18')
$20 = reader::Reader::remaining($19')
$21 = fsshttpb::packaging::FileChunkReference64x32::end($19.ok)
$22 = ($20 +.u64 $21.ok)
$23 = ($22 -.u64 p5)
$24 = reader::Reader::advance($19', $23)
$25 = shared::guid::Guid::parse($24')
$26 = shared::guid::Guid::parse($25')
$27 = shared::guid::Guid::parse($26')
$28 = shared::guid::Guid::parse($27')
$29 = fsshttpb::packaging::OneStorePackaging::parse_legacy($28', $25.ok, $26.ok, $27.ok, $28.ok)
=> $29'

