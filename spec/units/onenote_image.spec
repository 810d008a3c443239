## crate::onenote::image::Image::alt_text
=> p0.alt_text

## crate::onenote::image::Image::data
=> p0.data

## crate::onenote::image::Image::displayed_page_number
=> p0.displayed_page_number

## crate::onenote::image::Image::embeds
=> p0.embeds

## crate::onenote::image::Image::extension
=> p0.extension

## crate::onenote::image::Image::hyperlink_url
=> p0.hyperlink_url

## crate::onenote::image::Image::image_filename
=> p0.image_filename

## crate::onenote::image::Image::is_background
=> p0.is_background

## crate::onenote::image::Image::layout_alignment_in_parent
=> p0.layout_alignment_in_parent

## crate::onenote::image::Image::layout_alignment_self
=> p0.layout_alignment_self

## crate::onenote::image::Image::layout_max_height
=> p0.layout_max_height

## crate::onenote::image::Image::layout_max_width
=> p0.layout_max_width

## crate::onenote::image::Image::note_tags
=> p0.note_tags

## crate::onenote::image::Image::offset_horizontal
=> p0.offset_horizontal

## crate::onenote::image::Image::offset_vertical
=> p0.offset_vertical

## crate::onenote::image::Image::picture_height
=> p0.picture_height

## crate::onenote::image::Image::picture_width
=> p0.picture_width

## crate::onenote::image::Image::text
=> p0.text

## crate::onenote::image::Image::text_language_code
=> p0.text_language_code

## crate::onenote::image::parse_image
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::image_node::parse($1.some)
$3 = onenote::iframe::parse_iframe(elb[1], p1)
$4 = lp[1, $2.ok.iframe, (), (), (), is1($3)]
$5 = ldone[$4]
$6 = onenote::note_tag::parse_note_tags($2.ok.note_tags, p1)
$7 = onestore::object_space::ObjectSpace::get_object(p1, $2.ok.picture_container.some)
$8 = one::property_set::picture_container::parse($7.some)
$9 = if !is1($2.ok.picture_container): None
  else Some($8.ok.data)
$10 = if !is1($2.ok.picture_container): None
  else $8.ok.extension
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !is1($2.ok.picture_container): 
  if !$5: Err(E)
  else if is1($6): Err(E)
  else Ok(Image{data: $9, extension: $10, layout_max_width: $2.ok.layout_max_width, layout_max_height: $2.ok.layout_max_height, alt_text: $2.ok.alt_text, layout_alignment_in_parent: $2.ok.layout_alignment_in_parent, layout_alignment_self: $2.ok.layout_alignment_self, image_filename: $2.ok.image_filename, displayed_page_number: $2.ok.displayed_page_number, text: $2.ok.text, text_language_code: $2.ok.text_language_code, picture_width: $2.ok.picture_width, picture_height: $2.ok.picture_height, hyperlink_url: $2.ok.hyperlink_url, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert, is_background: $2.ok.is_background, note_tags: $6.ok, embeds: gen[$2.ok.iframe, true, $3.ok, 1]})
else if !$5: Err(E)
else if is1($6): Err(E)
else if !is1($7): Err(E)
else if is1($8): Err(E)
else Ok(Image{data: $9, extension: $10, layout_max_width: $2.ok.layout_max_width, layout_max_height: $2.ok.layout_max_height, alt_text: $2.ok.alt_text, layout_alignment_in_parent: $2.ok.layout_alignment_in_parent, layout_alignment_self: $2.ok.layout_alignment_self, image_filename: $2.ok.image_filename, displayed_page_number: $2.ok.displayed_page_number, text: $2.ok.text, text_language_code: $2.ok.text_language_code, picture_width: $2.ok.picture_width, picture_height: $2.ok.picture_height, hyperlink_url: $2.ok.hyperlink_url, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert, is_background: $2.ok.is_background, note_tags: $6.ok, embeds: gen[$2.ok.iframe, true, $3.ok, 1]})

