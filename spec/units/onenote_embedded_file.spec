## crate::onenote::embedded_file::EmbeddedFile::data
=> p0.data

## crate::onenote::embedded_file::EmbeddedFile::file_type
=> p0.file_type

## crate::onenote::embedded_file::EmbeddedFile::filename
=> p0.filename

## crate::onenote::embedded_file::EmbeddedFile::layout_max_height
=> p0.layout_max_height

## crate::onenote::embedded_file::EmbeddedFile::layout_max_width
=> p0.layout_max_width

## crate::onenote::embedded_file::EmbeddedFile::note_tags
=> p0.note_tags

## crate::onenote::embedded_file::EmbeddedFile::offset_horizontal
=> p0.offset_horizontal

## crate::onenote::embedded_file::EmbeddedFile::offset_vertical
=> p0.offset_vertical

## crate::onenote::embedded_file::parse_embedded_file
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::embedded_file_node::parse($1.some)
$3 = onenote::note_tag::parse_note_tags($2.ok.note_tags, p1)
$4 = onestore::object_space::ObjectSpace::get_object(p1, $2.ok.embedded_file_container)
$5 = one::property_set::embedded_file_container::parse($4.some)
$6 = one::property_set::embedded_file_container::Data::into_value($5.ok)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($4): Err(E)
else if is1($5): Err(E)
else Ok(EmbeddedFile{filename: $2.ok.embedded_file_name, file_type: $2.ok.file_type, data: $6, layout_max_width: $2.ok.layout_max_width, layout_max_height: $2.ok.layout_max_height, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert, note_tags: $3.ok})

