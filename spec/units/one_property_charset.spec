## crate::one::property::charset::Charset::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u8($2.some)
$4 = ($3.some == 128)
$5 = ($3.some == 77)
$6 = ($3.some == 0)
$7 = ($3.some == 177)
$8 = ($3.some == 222)
$9 = ($3.some == 1)
$10 = ($3.some == 163)
$11 = ($3.some == 178)
$12 = ($3.some == 134)
$13 = ($3.some == 255)
$14 = ($3.some == 130)
$15 = ($3.some == 161)
$16 = ($3.some == 129)
$17 = ($3.some == 204)
$18 = ($3.some == 162)
$19 = ($3.some == 238)
$20 = ($3.some == 186)
$21 = ($3.some == 136)
$22 = if $4: Charset::ShiftJis
  else if $5: Charset::Mac
  else if $6: Charset::Ansi
  else if $7: Charset::Hebrew
  else if $8: Charset::Thai
  else if $9: Charset::Default
  else if $10: Charset::Vietnamese
  else if $11: Charset::Arabic
  else if $12: Charset::Gb2312
  else if $13: Charset::Oem
  else if $14: Charset::Johab
  else if $15: Charset::Greek
  else if $16: Charset::Hangul
  else if $17: Charset::Russian
  else if $18: Charset::Turkish
  else if $19: Charset::EastEurope
  else if $20: Charset::Baltic
  else if !$21: Charset::Symbol
  else Charset::ChineseBig5
=> if !is1($2): Ok(None)
else if $4: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $5: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $6: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $7: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $8: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $9: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $10: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $11: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $12: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $13: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $14: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $15: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $16: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $17: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $18: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $19: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $20: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if $21: 
  if !is1($3): Err(E)
  else Ok(Some($22))
else if !($3.some == 2): Err(E)
else if !is1($3): Err(E)
else Ok(Some($22))

