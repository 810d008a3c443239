## crate::onenote::page_series::PageSeries::pages
=> p0.pages

## crate::onenote::page_series::parse_page_series
$1 = onestore::OneStore::data_root(p1)
$2 = onestore::object_space::ObjectSpace::get_object($1, p0)
$3 = one::property_set::page_series_node::parse($2.some)
$4 = onestore::OneStore::object_space(p1, elb[1])
$5 = onenote::page::parse_page($4.some)
$6 = if !is1($4): true
  else is1($5)
$7 = lp[1, $3.ok.page_spaces, (), (), (), $6]
=> if !is1($2): Err(E)
else if is1($3): Err(E)
else if !ldone[$7]: Err(E)
else Ok(PageSeries{pages: gen[$3.ok.page_spaces, true, $5.ok, 1]})

