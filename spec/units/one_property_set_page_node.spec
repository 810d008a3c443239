## crate::one::property_set::page_node::parse
$1 = one::property::author::Author::parse(p0)
$2 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::StructureElementChildNodes, p0)
$3 = one::property::simple::parse_bool(PropertyType::PortraitPage, p0)
$4 = one::property::simple::parse_string(PropertyType::CachedTitleStringFromPage, p0)
$5 = one::property::simple::parse_f32(PropertyType::PageMarginBottom, p0)
$6 = one::property::page_size::PageSize::parse(PropertyType::PageSize, p0)
$7 = one::property::simple::parse_f32(PropertyType::PageMarginTop, p0)
$8 = one::property::simple::parse_f32(PropertyType::PageMarginLeft, p0)
$9 = one::property::simple::parse_f32(PropertyType::PageMarginOriginY, p0)
$10 = one::property::simple::parse_f32(PropertyType::PageMarginOriginX, p0)
$11 = one::property::simple::parse_f32(PropertyType::PageMarginRight, p0)
$12 = one::property::simple::parse_f32(PropertyType::PageWidth, p0)
$13 = one::property_set::assert_property_set(p0, PropertySetId::PageNode)
$14 = one::property::simple::parse_f32(PropertyType::PageHeight, p0)
$15 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$16 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$17 = one::property::simple::parse_bool(PropertyType::EditRootRtl, p0)
$18 = if !is1($15.ok): vecnil
  else $15.ok.some
$19 = if (len[$2.ok.some] == 0): None
  else if !is1($2.ok): None
  else Some(idx[$2.ok.some, 0])
$20 = if !$3.ok.some: false
  else is1($3.ok)
$21 = if !is1($6.ok): PageSize::Auto
  else $6.ok.some
$22 = if !$17.ok.some: false
  else is1($17.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if is1($15): Err(E)
else if is1($16): Err(E)
else if is1($17): Err(E)
else Ok(page_node::Data{last_modified: $16.ok, cached_title: $4.ok, author: $1.ok, content: $18, title: $19, orientation_portrait: $20, page_width: $12.ok, page_height: $14.ok, page_margin_origin_x: $10.ok, page_margin_origin_y: $9.ok, page_margin_left: $8.ok, page_margin_right: $11.ok, page_margin_top: $7.ok, page_margin_bottom: $5.ok, page_size: $21, rtl: $22})

