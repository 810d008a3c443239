## crate::one::property::page_size::PageSize::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = ($3.some == 5)
$5 = ($3.some == 8)
$6 = ($3.some == 15)
$7 = ($3.some == 1)
$8 = ($3.some == 3)
$9 = ($3.some == 14)
$10 = ($3.some == 6)
$11 = ($3.some == 10)
$12 = ($3.some == 2)
$13 = ($3.some == 13)
$14 = ($3.some == 7)
$15 = ($3.some == 4)
$16 = ($3.some == 11)
$17 = ($3.some == 0)
$18 = ($3.some == 12)
$19 = if $4: PageSize::IsoA3
  else if $5: PageSize::IsoA6
  else if $6: PageSize::Custom
  else if $7: PageSize::Us
  else if $8: PageSize::AnsiTabloid
  else if $9: PageSize::Billfold
  else if $10: PageSize::IsoA4
  else if $11: PageSize::JisB5
  else if $12: PageSize::AnsiLetter
  else if $13: PageSize::IndexCard
  else if $14: PageSize::IsoA5
  else if $15: PageSize::UsLegal
  else if $16: PageSize::JisB6
  else if $17: PageSize::Auto
  else if !$18: PageSize::JisB4
  else PageSize::JapanesePostcard
=> if !is1($2): Ok(None)
else if $4: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $5: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $6: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $7: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $8: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $9: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $10: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $11: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $12: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $13: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $14: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $15: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $16: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $17: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if $18: 
  if !is1($3): Err(E)
  else Ok(Some($19))
else if !($3.some == 9): Err(E)
else if !is1($3): Err(E)
else Ok(Some($19))

