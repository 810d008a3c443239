## crate::<onenote::Parser as std::default::Default>::default
$1 = onenote::Parser::new()
=> $1

## crate::onenote::Parser::new
=> Parser()

## crate::onenote::Parser::parse_nested_notebook
$1 = std::path::Path::parent(p1)
$2 = std::fs::File::open(p1)
$3 = onenote::Parser::read($2.ok)
$4 = reader::Reader::new($3.ok)
$5 = fsshttpb::packaging::OneStorePackaging::parse($4)
$6 = onestore::parse_store($5.ok)
$7 = shared::guid::Guid::from_str('E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F')
$8 = onestore::OneStore::schema_guid($6.ok)
$9 = onestore::OneStore::data_root($6.ok)
$10 = onenote::notebook::parse_toc($9)
$11 = onenote::resolve_entry_path($1.some, elb[1])
$12 = lp[1, $10.ok.0, (), (), (), is1($11)]
$13 = std::path::Path::is_file($11.ok)
$14 = std::path::Path::exists($11.ok)
$15 = std::path::Path::ends_with($11.ok, 'OneNote_RecycleBin')
$16 = onenote::Parser::parse_section(p0, $11.ok)
$17 = onenote::Parser::parse_section_group(p0, $11.ok, (1 +.usize p2))
$18 = if $13: 
    if !$14: false
    else if $15: false
    else is1($16)
  else if !$14: false
  else if $15: false
  else is1($17)
$19 = lp[1, $10.ok.0, (), (), (), $18]
$20 = ldone[$19]
$21 = if !$14: false
  else if !$15: true
  else false
$22 = if $13: SectionEntry::Section($16.ok)
  else SectionEntry::SectionGroup($17.ok)
$23 = gen[$10.ok.0, $21, $22, 1]
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !($7.ok == $8): Err(E)
else if is1($10): Err(E)
else if !ldone[$12]: Err(E)
else if !$20: Err(E)
else Ok(Notebook{entries: $23, color: $10.ok.1})

## crate::onenote::Parser::parse_notebook
$1 = onenote::Parser::parse_nested_notebook(p0, p1, 0)
=> $1

## crate::onenote::Parser::parse_section
$1 = std::fs::File::open(p1)
$2 = std::path::Path::file_name(p1)
$3 = onenote::Parser::read($1.ok)
$4 = reader::Reader::new($3.ok)
$5 = fsshttpb::packaging::OneStorePackaging::parse($4)
$6 = onestore::parse_store($5.ok)
$7 = shared::guid::Guid::from_str('1F937CB4-B26F-445F-B9F8-17E20160E461')
$8 = onestore::OneStore::schema_guid($6.ok)
$9 = std::ffi::OsStr::to_string_lossy($2.some)
$10 = onenote::section::parse_section($6.ok, $9)
=> if is1($1): Err(E)
else if !is1($2): Err(E)
else if is1($3): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !($7.ok == $8): Err(E)
else $10

## crate::onenote::Parser::parse_section_buffer
$1 = reader::Reader::new(p1)
$2 = fsshttpb::packaging::OneStorePackaging::parse($1)
$3 = onestore::parse_store($2.ok)
$4 = shared::guid::Guid::from_str('1F937CB4-B26F-445F-B9F8-17E20160E461')
$5 = onestore::OneStore::schema_guid($3.ok)
$6 = std::path::Path::to_string_lossy(p2)
$7 = onenote::section::parse_section($3.ok, $6)
=> if is1($2): Err(E)
else if is1($3): Err(E)
else if !($4.ok == $5): Err(E)
else $7

## crate::onenote::Parser::parse_section_group
$1 = std::path::Path::read_dir(p1)
$2 = std::path::Path::file_name(p1)
$3 = lp[1, $1.ok, (), (), (), is1(elb[1])]
$4 = std::fs::DirEntry::path(elb[1].ok)
$5 = gen[$1.ok, true, $4, 1]
$6 = std::ffi::OsStr::new('onetoc2')
$7 = std::path::Path::extension(elb[1])
$8 = if !($6 == $7.some): false
  else is1($7)
$9 = lp[1, sortk[$5, $5], (), (), ($8), false]
$10 = onenote::Parser::parse_nested_notebook(p0, lpv[$9, $8, elb[1]], p2)
$11 = std::ffi::OsStr::to_string_lossy($2.some)
=> if !(p2 < 65): Err(E)
else if is1($1): Err(E)
else if !is1($2): Err(E)
else if !ldone[$3]: Err(E)
else if !lexit[$9, $8]: Err(E)
else if is1($10): Err(E)
else Ok(SectionGroup{display_name: $11, entries: $10.ok.entries})

## crate::onenote::Parser::read
$1 = std::io::Read::read_to_end(p0, vecnil)
=> if is1($1): Err(E)
else Ok($1'1)

## crate::onenote::resolve_entry_path
$1 = std::path::Path::canonicalize(p0)
$2 = std::path::Path::new(p1)
$3 = std::path::Path::is_absolute($2)
$4 = std::path::Path::components($2)
$5 = std::ffi::OsStr::to_str(elb[1].4:0)
$6 = sanitise_file_name::sanitise($5.some)
$7 = if is1(elb[1]): true
  else if is0(elb[1]): true
  else if is3(elb[1]): true
  else if !is4(elb[1]): false
  else if !is1($5): true
  else if !($5.some == $6): true
  else false
$8 = lp[1, $4, (), (), (), $7]
$9 = ldone[$8]
$10 = std::path::PathBuf::new()
$11 = std::path::PathBuf::push(lvb[1, 0], $5.some)
$12 = if !is4(elb[1]): lvb[1, 0]
  else $11'
$13 = lp[1, $4, ($10), ($12), (), $7]
$14 = lpv[$13, done, lvb[1, 0]]
$15 = std::path::Path::as_os_str($14)
$16 = std::ffi::OsStr::is_empty($15)
$17 = std::path::Path::join(p0, $14)
$18 = std::path::Path::exists($17)
$19 = std::path::Path::canonicalize($17)
$20 = std::path::Path::starts_with($19.ok, $1.ok)
=> if is1($1): 
  if $3: Err(E)
  else if !$9: Err(E)
  else if $16: Err(E)
  else if $18: Err(E)
  else Ok($17)
else if $3: Err(E)
else if !$9: Err(E)
else if $16: Err(E)
else if !$18: Ok($17)
else if is1($19): Err(E)
else if !$20: Err(E)
else Ok($17)

