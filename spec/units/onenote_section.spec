## crate::onenote::section::Section::color
=> p0.color

## crate::onenote::section::Section::display_name
=> p0.display_name

## crate::onenote::section::Section::page_series
=> p0.page_series

## crate::onenote::section::SectionGroup::display_name
=> p0.display_name

## crate::onenote::section::SectionGroup::entries
=> p0.entries

## crate::onenote::section::parse_content
$1 = onestore::object_space::ObjectSpace::content_root(p0)
$2 = onestore::object_space::ObjectSpace::get_object(p0, $1.some)
$3 = one::property_set::section_node::parse($2.some)
=> if !is1($1): Err(E)
else if !is1($2): Err(E)
else $3

## crate::onenote::section::parse_metadata
$1 = onestore::object_space::ObjectSpace::metadata_root(p0)
$2 = onestore::object_space::ObjectSpace::get_object(p0, $1.some)
$3 = one::property_set::section_metadata_node::parse($2.some)
=> if !is1($1): Err(E)
else if !is1($2): Err(E)
else $3

## crate::onenote::section::parse_section
$1 = onestore::OneStore::data_root(p0)
$2 = onenote::section::parse_content($1)
$3 = onenote::section::parse_metadata($1)
$4 = onenote::page_series::parse_page_series(elb[1], p0)
$5 = lp[1, $2.ok.page_series, (), (), (), is1($4)]
$6 = if !is1($3.ok.display_name): p1
  else $3.ok.display_name.some
$7 = core::str::<impl str>::trim_end_matches($6, '.one')
=> if is1($2): Err(E)
else if is1($3): Err(E)
else if !ldone[$5]: Err(E)
else Ok(Section{display_name: $7, page_series: gen[$2.ok.page_series, true, $4.ok, 1], color: $3.ok.color})

