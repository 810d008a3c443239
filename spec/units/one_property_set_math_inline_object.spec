## crate::one::property_set::math_inline_object::Data::parse
$1 = one::property::simple::parse_u8(PropertyType::MathInlineObjectAlign, p0)
$2 = one::property::simple::parse_u32(PropertyType::MathInlineObjectCount, p0)
$3 = one::property::simple::parse_u16(PropertyType::MathInlineObjectChar, p0)
$4 = one::property::simple::parse_u32(PropertyType::MathInlineObjectType, p0)
$5 = one::property::simple::parse_u16(PropertyType::MathInlineObjectChar2, p0)
$6 = one::property::simple::parse_u8(PropertyType::MathInlineObjectCol, p0)
$7 = one::property::simple::parse_u16(PropertyType::MathInlineObjectChar1, p0)
$8 = one::property_set::math_inline_object::parse_utf16_char($3.ok.some)
$9 = if !is1($3.ok): None
  else $8.ok
$10 = one::property_set::math_inline_object::parse_utf16_char($7.ok.some)
$11 = if !is1($7.ok): None
  else $10.ok
$12 = one::property_set::math_inline_object::parse_utf16_char($5.ok.some)
$13 = if !is1($5.ok): None
  else $12.ok
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if !is1($3.ok): 
  if !is1($5.ok): 
    if !is1($7.ok): Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
    else if is1($10): Err(E)
    else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
  else if !is1($7.ok): 
    if is1($12): Err(E)
    else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
  else if is1($10): Err(E)
  else if is1($12): Err(E)
  else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
else if !is1($5.ok): 
  if !is1($7.ok): 
    if is1($8): Err(E)
    else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
  else if is1($10): Err(E)
  else if is1($8): Err(E)
  else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
else if !is1($7.ok): 
  if is1($12): Err(E)
  else if is1($8): Err(E)
  else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})
else if is1($10): Err(E)
else if is1($12): Err(E)
else if is1($8): Err(E)
else Ok(math_inline_object::Data{object_type: $4.ok, arg_count: $2.ok, column: $6.ok, align: $1.ok, char: $9, char1: $11, char2: $13})

## crate::one::property_set::math_inline_object::parse_utf16_char
$1 = widestring::U16String::from_vec([p0])
$2 = widestring::U16Str::to_string($1)
$3 = chars[$2.ok]
$4 = if (len[$3] == 0): None
  else Some(idx[$3, 0])
=> if is1($2): Err(E)
else Ok($4)

