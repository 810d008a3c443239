## crate::onenote::page_content::PageContent::embedded_file
=> if !is2(p0): None
else Some(p0.0)

## crate::onenote::page_content::PageContent::image
=> p0

## crate::onenote::page_content::PageContent::ink
=> if !is3(p0): None
else Some(p0.0)

## crate::onenote::page_content::PageContent::outline
=> if !is0(p0): None
else Some(p0.0)

## crate::onenote::page_content::parse_page_content
$1 = onenote::embedded_file::parse_embedded_file(p0, p1)
$2 = onenote::outline::parse_outline(p0, p1)
$3 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$4 = onenote::ink::parse_ink(p0, p1)
$5 = onenote::image::parse_image(p0, p1)
$6 = onestore::object::Object::id($3.some)
$7 = one::property_set::PropertySetId::from_jcid($6)
$8 = if is1($2): 
    if is1($4): 
      if is1($5): 
        if !is2($7.some): PageContent::Unknown
        else PageContent::EmbeddedFile($1.ok)
      else if is3($7.some): PageContent::Image($5.ok)
      else if !is2($7.some): PageContent::Unknown
      else PageContent::EmbeddedFile($1.ok)
    else if is1($5): 
      if is25($7.some): PageContent::Ink($4.ok)
      else if !is2($7.some): PageContent::Unknown
      else PageContent::EmbeddedFile($1.ok)
    else if is25($7.some): PageContent::Ink($4.ok)
    else if is3($7.some): PageContent::Image($5.ok)
    else if !is2($7.some): PageContent::Unknown
    else PageContent::EmbeddedFile($1.ok)
  else if is1($4): 
    if is1($5): 
      if is8($7.some): PageContent::Outline($2.ok)
      else if !is2($7.some): PageContent::Unknown
      else PageContent::EmbeddedFile($1.ok)
    else if is8($7.some): PageContent::Outline($2.ok)
    else if is3($7.some): PageContent::Image($5.ok)
    else if !is2($7.some): PageContent::Unknown
    else PageContent::EmbeddedFile($1.ok)
  else if is1($5): 
    if is8($7.some): PageContent::Outline($2.ok)
    else if is25($7.some): PageContent::Ink($4.ok)
    else if !is2($7.some): PageContent::Unknown
    else PageContent::EmbeddedFile($1.ok)
  else if is8($7.some): PageContent::Outline($2.ok)
  else if is25($7.some): PageContent::Ink($4.ok)
  else if is3($7.some): PageContent::Image($5.ok)
  else if !is2($7.some): PageContent::Unknown
  else PageContent::EmbeddedFile($1.ok)
=> if !is1($1): 
  if is1($2): 
    if !is1($3): Err(E)
    else if !is1($4): 
      if !is1($5): 
        if !is1($7): Err(E)
        else if is8($7.some): Err(E)
        else Ok($8)
      else if !is1($7): Err(E)
      else if is8($7.some): Err(E)
      else if is3($7.some): Err(E)
      else Ok($8)
    else if !is1($5): 
      if !is1($7): Err(E)
      else if is8($7.some): Err(E)
      else if is25($7.some): Err(E)
      else Ok($8)
    else if !is1($7): Err(E)
    else if is8($7.some): Err(E)
    else if is25($7.some): Err(E)
    else if is3($7.some): Err(E)
    else Ok($8)
  else if !is1($3): Err(E)
  else if !is1($4): 
    if !is1($5): 
      if !is1($7): Err(E)
      else Ok($8)
    else if !is1($7): Err(E)
    else if is3($7.some): Err(E)
    else Ok($8)
  else if !is1($5): 
    if !is1($7): Err(E)
    else if is8($7.some): Ok($8)
    else if is25($7.some): Err(E)
    else Ok($8)
  else if !is1($7): Err(E)
  else if is8($7.some): Ok($8)
  else if is25($7.some): Err(E)
  else if is3($7.some): Err(E)
  else Ok($8)
else if is1($2): 
  if !is1($3): Err(E)
  else if !is1($4): 
    if !is1($5): 
      if !is1($7): Err(E)
      else if is8($7.some): Err(E)
      else if is2($7.some): Err(E)
      else Ok($8)
    else if !is1($7): Err(E)
    else if is8($7.some): Err(E)
    else if is3($7.some): Err(E)
    else if is2($7.some): Err(E)
    else Ok($8)
  else if !is1($5): 
    if !is1($7): Err(E)
    else if is8($7.some): Err(E)
    else if is25($7.some): Err(E)
    else if is2($7.some): Err(E)
    else Ok($8)
  else if !is1($7): Err(E)
  else if is8($7.some): Err(E)
  else if is25($7.some): Err(E)
  else if is3($7.some): Err(E)
  else if is2($7.some): Err(E)
  else Ok($8)
else if !is1($3): Err(E)
else if !is1($4): 
  if !is1($5): 
    if !is1($7): Err(E)
    else if is2($7.some): Err(E)
    else Ok($8)
  else if !is1($7): Err(E)
  else if is3($7.some): Err(E)
  else if is2($7.some): Err(E)
  else Ok($8)
else if !is1($5): 
  if !is1($7): Err(E)
  else if is8($7.some): Ok($8)
  else if is25($7.some): Err(E)
  else if is2($7.some): Err(E)
  else Ok($8)
else if !is1($7): Err(E)
else if is8($7.some): Ok($8)
else if is25($7.some): Err(E)
else if is3($7.some): Err(E)
else if is2($7.some): Err(E)
else Ok($8)

