## crate::fsshttpb::data::compact_u64::CompactU64::parse
$1 = reader::Reader::remaining(*p0)
$2 = reader::Reader::bytes(*p0)
$3 = reader::Reader::advance(*p0, 1)
$4 = (u8{idx[$2, 0][2:3]} == 0)
$5 = (u8{idx[$2, 0][0:1]} == 0)
$6 = reader::Reader::get_u8(*p0)
$7 = (u8{idx[$2, 0][1:2]} == 0)
$8 = reader::Reader::get_u16(*p0)
$9 = (u8{idx[$2, 0][3:4]} == 0)
$10 = (u8{idx[$2, 0][4:5]} == 0)
$11 = (u8{idx[$2, 0][7:8]} == 0)
$12 = (u8{idx[$2, 0][5:6]} == 0)
$13 = (u8{idx[$2, 0][6:7]} == 0)
$14 = reader::Reader::get_u64($3')
$15 = reader::Reader::advance(*p0, 3)
$16 = reader::Reader::advance(*p0, 4)
$17 = reader::Reader::advance(*p0, 5)
$18 = reader::Reader::advance(*p0, 6)
$19 = reader::Reader::advance(*p0, 7)
=> if ($1 < 4): 
  if ($1 < 3): 
    if (len[$2] == 0): Err(E)
    else if (idx[$2, 0] == 0): 
      if is1($3): Err(E)
      else Ok(CompactU64(0))
    else if !$4: 
      if !$5: 
        if is1($6): Err(E)
        else Ok(CompactU64(u64{$6.ok[1:8]}))
      else if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$9: 
      if !$5: 
        if is1($6): Err(E)
        else Ok(CompactU64(u64{$6.ok[1:8]}))
      else if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$10: 
      if !$5: 
        if is1($6): Err(E)
        else Ok(CompactU64(u64{$6.ok[1:8]}))
      else if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if $11: 
      if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$12: 
      if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$13: 
      if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($3): Err(E)
    else if is1($14): Err(E)
    else Ok(CompactU64($14.ok))
  else if (len[$2] == 0): Err(E)
  else if (idx[$2, 0] == 0): 
    if is1($3): Err(E)
    else Ok(CompactU64(0))
  else if !$4: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($15): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][3:8]|idx[$2, 1][0:8]<<5|idx[$2, 2][0:8]<<13}))
  else if !$9: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$10: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if $11: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$12: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$13: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($3): Err(E)
  else if is1($14): Err(E)
  else Ok(CompactU64($14.ok))
else if ($1 < 5): 
  if (len[$2] == 0): Err(E)
  else if (idx[$2, 0] == 0): 
    if is1($3): Err(E)
    else Ok(CompactU64(0))
  else if !$4: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($15): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][3:8]|idx[$2, 1][0:8]<<5|idx[$2, 2][0:8]<<13}))
  else if !$9: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($16): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][4:8]|idx[$2, 1][0:8]<<4|idx[$2, 2][0:8]<<12|idx[$2, 3][0:8]<<20}))
  else if !$10: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if $11: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$12: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$13: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($3): Err(E)
  else if is1($14): Err(E)
  else Ok(CompactU64($14.ok))
else if !($1 < 7): 
  if (len[$2] == 0): Err(E)
  else if (idx[$2, 0] == 0): 
    if is1($3): Err(E)
    else Ok(CompactU64(0))
  else if !$4: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($15): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][3:8]|idx[$2, 1][0:8]<<5|idx[$2, 2][0:8]<<13}))
  else if !$9: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($16): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][4:8]|idx[$2, 1][0:8]<<4|idx[$2, 2][0:8]<<12|idx[$2, 3][0:8]<<20}))
  else if !$10: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($17): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][5:8]|idx[$2, 1][0:8]<<3|idx[$2, 2][0:8]<<11|idx[$2, 3][0:8]<<19|idx[$2, 4][0:8]<<27}))
  else if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if $11: 
    if !$12: 
      if !$7: 
        if is1($8): Err(E)
        else Ok(CompactU64(u64{$8.ok[2:16]}))
      else if is1($18): Err(E)
      else Ok(CompactU64(u64{idx[$2, 0][6:8]|idx[$2, 1][0:8]<<2|idx[$2, 2][0:8]<<10|idx[$2, 3][0:8]<<18|idx[$2, 4][0:8]<<26|idx[$2, 5][0:8]<<34}))
    else if $13: 
      if $7: Err(E)
      else if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($19): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][7:8]|idx[$2, 1][0:8]<<1|idx[$2, 2][0:8]<<9|idx[$2, 3][0:8]<<17|idx[$2, 4][0:8]<<25|idx[$2, 5][0:8]<<33|idx[$2, 6][0:8]<<41}))
  else if !$12: 
    if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($18): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][6:8]|idx[$2, 1][0:8]<<2|idx[$2, 2][0:8]<<10|idx[$2, 3][0:8]<<18|idx[$2, 4][0:8]<<26|idx[$2, 5][0:8]<<34}))
  else if $13: 
    if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($3): Err(E)
    else if is1($14): Err(E)
    else Ok(CompactU64($14.ok))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($19): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][7:8]|idx[$2, 1][0:8]<<1|idx[$2, 2][0:8]<<9|idx[$2, 3][0:8]<<17|idx[$2, 4][0:8]<<25|idx[$2, 5][0:8]<<33|idx[$2, 6][0:8]<<41}))
else if ($1 < 6): 
  if (len[$2] == 0): Err(E)
  else if (idx[$2, 0] == 0): 
    if is1($3): Err(E)
    else Ok(CompactU64(0))
  else if !$4: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($15): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][3:8]|idx[$2, 1][0:8]<<5|idx[$2, 2][0:8]<<13}))
  else if !$9: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($16): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][4:8]|idx[$2, 1][0:8]<<4|idx[$2, 2][0:8]<<12|idx[$2, 3][0:8]<<20}))
  else if !$10: 
    if !$5: 
      if is1($6): Err(E)
      else Ok(CompactU64(u64{$6.ok[1:8]}))
    else if !$7: 
      if is1($8): Err(E)
      else Ok(CompactU64(u64{$8.ok[2:16]}))
    else if is1($17): Err(E)
    else Ok(CompactU64(u64{idx[$2, 0][5:8]|idx[$2, 1][0:8]<<3|idx[$2, 2][0:8]<<11|idx[$2, 3][0:8]<<19|idx[$2, 4][0:8]<<27}))
  else if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if $11: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$12: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$13: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($3): Err(E)
  else if is1($14): Err(E)
  else Ok(CompactU64($14.ok))
else if (len[$2] == 0): Err(E)
else if (idx[$2, 0] == 0): 
  if is1($3): Err(E)
  else Ok(CompactU64(0))
else if !$4: 
  if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($15): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][3:8]|idx[$2, 1][0:8]<<5|idx[$2, 2][0:8]<<13}))
else if !$9: 
  if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($16): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][4:8]|idx[$2, 1][0:8]<<4|idx[$2, 2][0:8]<<12|idx[$2, 3][0:8]<<20}))
else if !$10: 
  if !$5: 
    if is1($6): Err(E)
    else Ok(CompactU64(u64{$6.ok[1:8]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($17): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][5:8]|idx[$2, 1][0:8]<<3|idx[$2, 2][0:8]<<11|idx[$2, 3][0:8]<<19|idx[$2, 4][0:8]<<27}))
else if !$5: 
  if is1($6): Err(E)
  else Ok(CompactU64(u64{$6.ok[1:8]}))
else if $11: 
  if $12: 
    if $7: Err(E)
    else if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($18): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][6:8]|idx[$2, 1][0:8]<<2|idx[$2, 2][0:8]<<10|idx[$2, 3][0:8]<<18|idx[$2, 4][0:8]<<26|idx[$2, 5][0:8]<<34}))
else if !$12: 
  if !$7: 
    if is1($8): Err(E)
    else Ok(CompactU64(u64{$8.ok[2:16]}))
  else if is1($18): Err(E)
  else Ok(CompactU64(u64{idx[$2, 0][6:8]|idx[$2, 1][0:8]<<2|idx[$2, 2][0:8]<<10|idx[$2, 3][0:8]<<18|idx[$2, 4][0:8]<<26|idx[$2, 5][0:8]<<34}))
else if !$13: 
  if $7: Err(E)
  else if is1($8): Err(E)
  else Ok(CompactU64(u64{$8.ok[2:16]}))
else if !$7: 
  if is1($8): Err(E)
  else Ok(CompactU64(u64{$8.ok[2:16]}))
else if is1($3): Err(E)
else if is1($14): Err(E)
else Ok(CompactU64($14.ok))
state p0: $1 = reader::Reader::remaining(*p0)
$2 = reader::Reader::bytes(*p0)
$3 = reader::Reader::advance(*p0, 1)
$4 = (u8{idx[$2, 0][2:3]} == 0)
$5 = (u8{idx[$2, 0][0:1]} == 0)
$6 = reader::Reader::get_u8(*p0)
$7 = reader::Reader::get_u16(*p0)
$8 = (u8{idx[$2, 0][3:4]} == 0)
$9 = (u8{idx[$2, 0][4:5]} == 0)
$10 = (u8{idx[$2, 0][7:8]} == 0)
$11 = (u8{idx[$2, 0][5:6]} == 0)
$12 = (u8{idx[$2, 0][6:7]} == 0)
$13 = (u8{idx[$2, 0][1:2]} == 0)
$14 = reader::Reader::get_u64($3')
$15 = reader::Reader::advance(*p0, 3)
$16 = reader::Reader::advance(*p0, 4)
$17 = reader::Reader::advance(*p0, 5)
$18 = reader::Reader::advance(*p0, 6)
$19 = reader::Reader::advance(*p0, 7)
=> if ($1 < 4): 
  if ($1 < 3): 
    if (idx[$2, 0] == 0): $3'
    else if !$4: 
      if !$5: $6'
      else $7'
    else if !$8: 
      if !$5: $6'
      else $7'
    else if !$9: 
      if !$5: $6'
      else $7'
    else if !$5: $6'
    else if $10: $7'
    else if !$11: $7'
    else if !$12: $7'
    else if !$13: $7'
    else $14'
  else if (idx[$2, 0] == 0): $3'
  else if !$4: 
    if !$5: $6'
    else if !$13: $7'
    else $15'
  else if !$8: 
    if !$5: $6'
    else $7'
  else if !$9: 
    if !$5: $6'
    else $7'
  else if !$5: $6'
  else if $10: $7'
  else if !$11: $7'
  else if !$12: $7'
  else if !$13: $7'
  else $14'
else if ($1 < 5): 
  if (idx[$2, 0] == 0): $3'
  else if !$4: 
    if !$5: $6'
    else if !$13: $7'
    else $15'
  else if !$8: 
    if !$5: $6'
    else if !$13: $7'
    else $16'
  else if !$9: 
    if !$5: $6'
    else $7'
  else if !$5: $6'
  else if $10: $7'
  else if !$11: $7'
  else if !$12: $7'
  else if !$13: $7'
  else $14'
else if !($1 < 7): 
  if (idx[$2, 0] == 0): $3'
  else if !$4: 
    if !$5: $6'
    else if !$13: $7'
    else $15'
  else if !$8: 
    if !$5: $6'
    else if !$13: $7'
    else $16'
  else if !$9: 
    if !$5: $6'
    else if !$13: $7'
    else $17'
  else if !$5: $6'
  else if $10: 
    if !$11: 
      if !$13: $7'
      else $18'
    else if $12: $7'
    else if !$13: $7'
    else $19'
  else if !$11: 
    if !$13: $7'
    else $18'
  else if !$12: 
    if !$13: $7'
    else $19'
  else if !$13: $7'
  else $14'
else if ($1 < 6): 
  if (idx[$2, 0] == 0): $3'
  else if !$4: 
    if !$5: $6'
    else if !$13: $7'
    else $15'
  else if !$8: 
    if !$5: $6'
    else if !$13: $7'
    else $16'
  else if !$9: 
    if !$5: $6'
    else if !$13: $7'
    else $17'
  else if !$5: $6'
  else if $10: $7'
  else if !$11: $7'
  else if !$12: $7'
  else if !$13: $7'
  else $14'
else if (idx[$2, 0] == 0): $3'
else if !$4: 
  if !$5: $6'
  else if !$13: $7'
  else $15'
else if !$8: 
  if !$5: $6'
  else if !$13: $7'
  else $16'
else if !$9: 
  if !$5: $6'
  else if !$13: $7'
  else $17'
else if !$5: $6'
else if $10: 
  if $11: $7'
  else if !$13: $7'
  else $18'
else if !$11: 
  if !$13: $7'
  else $18'
else if !$12: $7'
else if !$13: $7'
else $14'

## crate::fsshttpb::data::compact_u64::CompactU64::value
=> p0.0

