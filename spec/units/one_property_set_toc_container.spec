## crate::one::property_set::toc_container::parse
$1 = one::property_set::assert_property_set(p0, PropertySetId::TocContainer)
$2 = one::property::simple::parse_string(PropertyType::FolderChildFilename, p0)
$3 = one::property::color::Color::parse(PropertyType::SectionColor, p0)
$4 = one::property::object_reference::ObjectReference::parse_vec(PropertyType::TocChildren, p0)
$5 = one::property::simple::parse_u32(PropertyType::NotebookElementOrderingId, p0)
$6 = if !is1($4.ok): vecnil
  else $4.ok.some
$7 = std::str::<impl str>::replace($2.ok.some, '^M', '+')
$8 = std::str::<impl str>::replace($7, '^J', ',')
$9 = if !is1($2.ok): None
  else Some($8)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else Ok(toc_container::Data{children: $6, filename: $9, ordering_id: $5.ok, color: $3.ok})

