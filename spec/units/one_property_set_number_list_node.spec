## crate::one::property_set::number_list_node::parse
$1 = one::property::simple::parse_bool(PropertyType::Italic, p0)
$2 = one::property::simple::parse_bool(PropertyType::Bold, p0)
$3 = one::property::simple::parse_u32(PropertyType::ListRestart, p0)
$4 = one::property::simple::parse_u16(PropertyType::FontSize, p0)
$5 = one::property::simple::parse_u32(PropertyType::LanguageId, p0)
$6 = one::property::simple::parse_string(PropertyType::Font, p0)
$7 = one::property::color_ref::ColorRef::parse(PropertyType::FontColor, p0)
$8 = one::property_set::assert_property_set(p0, PropertySetId::NumberListNode)
$9 = one::property::simple::parse_vec_u16(PropertyType::NumberListFormat, p0)
$10 = one::property::simple::parse_string(PropertyType::ListFont, p0)
$11 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$12 = if !is1($3.ok): None
  else Some(($3.ok.some as i32))
$13 = one::property_set::number_list_node::parse_list_format($9.ok.some)
$14 = if !$2.ok.some: false
  else is1($2.ok)
$15 = if !$1.ok.some: false
  else is1($1.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if !is1($9.ok): Err(E)
else if !is1($11.ok): Err(E)
else Ok(number_list_node::Data{last_modified: $11.ok.some, list_font: $10.ok, list_restart: $12, list_format: $13, bold: $14, italic: $15, language_code: $5.ok, font: $6.ok, font_size: $4.ok, font_color: $7.ok})

## crate::one::property_set::number_list_node::parse_list_format
$1 = std::char::decode_utf16(iter[skip[p0, 1], ()])
$2 = if is1(elb[1]): 65533
  else elb[1].ok
=> gen[$1, true, $2, 1]

