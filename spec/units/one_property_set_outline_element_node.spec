## crate::one::property_set::outline_element_node::parse
$1 = one::property::object_reference::ObjectReference::parse(PropertyType::AuthorMostRecent, p0)
$2 = one::property::simple::parse_bool(PropertyType::Deletable, p0)
$3 = one::property::time::Time::parse(PropertyType::CreationTimeStamp, p0)
$4 = one::property::simple::parse_bool(PropertyType::OutlineElementRtl, p0)
$5 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ContentChildNodes, p0)
$6 = one::property::object_reference::ObjectReference::parse(PropertyType::AuthorOriginal, p0)
$7 = one::property::simple::parse_bool(PropertyType::CannotBeSelected, p0)
$8 = one::property::simple::parse_f32(PropertyType::ListSpacingMu, p0)
$9 = one::property::simple::parse_bool(PropertyType::IsTitleText, p0)
$10 = one::property::simple::parse_u8(PropertyType::OutlineElementChildLevel, p0)
$11 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ElementChildNodes, p0)
$12 = one::property::time::Time::parse(PropertyType::LastModifiedTime, p0)
$13 = one::property_set::assert_property_set(p0, PropertySetId::OutlineElementNode)
$14 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::ListNodes, p0)
$15 = if !is1($11.ok): vecnil
  else $11.ok.some
$16 = if !is1($5.ok): vecnil
  else $5.ok.some
$17 = if !is1($14.ok): vecnil
  else $14.ok.some
$18 = if !$4.ok.some: false
  else is1($4.ok)
$19 = if !$2.ok.some: false
  else is1($2.ok)
$20 = if $7.ok.some: false
  else is1($7.ok)
$21 = if !$9.ok.some: false
  else is1($9.ok)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if is1($8): Err(E)
else if is1($9): Err(E)
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($12): Err(E)
else if is1($13): Err(E)
else if is1($14): Err(E)
else if !is1($10.ok): Err(E)
else if !is1($6.ok): Err(E)
else if !is1($12.ok): Err(E)
else if !is1($3.ok): Err(E)
else if !is1($1.ok): Err(E)
else Ok(outline_element_node::Data{created_at: $3.ok.some, last_modified: $12.ok.some, children: $15, child_level: $10.ok.some, contents: $16, list_contents: $17, list_spacing: $8.ok, author_original: $6.ok.some, author_most_recent: $1.ok.some, rtl: $18, is_deletable: $19, is_selectable: $20, is_title_text: $21})

