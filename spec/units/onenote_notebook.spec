## crate::onenote::notebook::Notebook::color
=> p0.color

## crate::onenote::notebook::Notebook::entries
=> p0.entries

## crate::onenote::notebook::parse_toc
$1 = onestore::object_space::ObjectSpace::content_root(p0)
$2 = onenote::notebook::parse_toc_entry($1.some, p0, 0)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else Ok((gen[dedup[sortk[$2.ok.entries, gen[$2.ok.entries, true, elb[1].0, 1]], gen[unit, true, (elb[1].0.1 == elb[1].1.1), 1]], true, elb[2].1, 2], $2.ok.color))

## crate::onenote::notebook::parse_toc_entry
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::toc_container::parse($1.some)
$3 = onenote::notebook::parse_toc_entry(elb[1], p1, (1 +.usize p2))
$4 = lp[1, $2.ok.children, (), (), (), is1($3)]
=> if !(p2 < 65): Err(E)
else if !is1($1): Err(E)
else if is1($2): Err(E)
else if !is1($2.ok.ordering_id): 
  if is1($2.ok.filename): Err(E)
  else if !ldone[$4]: Err(E)
  else Ok(TocEntry{entries: flat[gen[$2.ok.children, true, $3.ok.entries, 1]], color: $2.ok.color})
else if is1($2.ok.filename): Ok(TocEntry{entries: push[vecnil, ($2.ok.ordering_id.some, $2.ok.filename.some)], color: $2.ok.color})
else if !ldone[$4]: Err(E)
else Ok(TocEntry{entries: flat[gen[$2.ok.children, true, $3.ok.entries, 1]], color: $2.ok.color})

