## crate::onenote::content::Content::embedded_file
=> if !is3(p0): None
else Some(p0.0)

## crate::onenote::content::Content::image
=> if !is2(p0): None
else Some(p0.0)

## crate::onenote::content::Content::ink
=> if !is4(p0): None
else Some(p0.0)

## crate::onenote::content::Content::rich_text
=> if !is0(p0): None
else Some(p0.0)

## crate::onenote::content::Content::table
=> p0

## crate::onenote::content::parse_content
$1 = onenote::embedded_file::parse_embedded_file(p0, p1)
$2 = onenote::rich_text::parse_rich_text(p0, p1)
$3 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$4 = onenote::ink::parse_ink(p0, p1)
$5 = onenote::image::parse_image(p0, p1)
$6 = onenote::table::parse_table(p0, p1, p2)
$7 = onestore::object::Object::id($3.some)
$8 = one::property_set::PropertySetId::from_jcid($7)
$9 = if is1($2): 
    if is1($4): 
      if is1($5): 
        if is1($6): 
          if !is2($8.some): Content::Unknown
          else Content::EmbeddedFile($1.ok)
        else if is20($8.some): Content::Table($6.ok)
        else if !is2($8.some): Content::Unknown
        else Content::EmbeddedFile($1.ok)
      else if is1($6): 
        if is3($8.some): Content::Image($5.ok)
        else if !is2($8.some): Content::Unknown
        else Content::EmbeddedFile($1.ok)
      else if is20($8.some): Content::Table($6.ok)
      else if is3($8.some): Content::Image($5.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is1($5): 
      if is1($6): 
        if is25($8.some): Content::Ink($4.ok)
        else if !is2($8.some): Content::Unknown
        else Content::EmbeddedFile($1.ok)
      else if is20($8.some): Content::Table($6.ok)
      else if is25($8.some): Content::Ink($4.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is1($6): 
      if is25($8.some): Content::Ink($4.ok)
      else if is3($8.some): Content::Image($5.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is20($8.some): Content::Table($6.ok)
    else if is25($8.some): Content::Ink($4.ok)
    else if is3($8.some): Content::Image($5.ok)
    else if !is2($8.some): Content::Unknown
    else Content::EmbeddedFile($1.ok)
  else if is1($4): 
    if is1($5): 
      if is1($6): 
        if is16($8.some): Content::RichText($2.ok)
        else if !is2($8.some): Content::Unknown
        else Content::EmbeddedFile($1.ok)
      else if is20($8.some): Content::Table($6.ok)
      else if is16($8.some): Content::RichText($2.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is1($6): 
      if is3($8.some): Content::Image($5.ok)
      else if is16($8.some): Content::RichText($2.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is20($8.some): Content::Table($6.ok)
    else if is3($8.some): Content::Image($5.ok)
    else if is16($8.some): Content::RichText($2.ok)
    else if !is2($8.some): Content::Unknown
    else Content::EmbeddedFile($1.ok)
  else if is1($5): 
    if is1($6): 
      if is25($8.some): Content::Ink($4.ok)
      else if is16($8.some): Content::RichText($2.ok)
      else if !is2($8.some): Content::Unknown
      else Content::EmbeddedFile($1.ok)
    else if is20($8.some): Content::Table($6.ok)
    else if is25($8.some): Content::Ink($4.ok)
    else if is16($8.some): Content::RichText($2.ok)
    else if !is2($8.some): Content::Unknown
    else Content::EmbeddedFile($1.ok)
  else if is1($6): 
    if is25($8.some): Content::Ink($4.ok)
    else if is3($8.some): Content::Image($5.ok)
    else if is16($8.some): Content::RichText($2.ok)
    else if !is2($8.some): Content::Unknown
    else Content::EmbeddedFile($1.ok)
  else if is20($8.some): Content::Table($6.ok)
  else if is25($8.some): Content::Ink($4.ok)
  else if is3($8.some): Content::Image($5.ok)
  else if is16($8.some): Content::RichText($2.ok)
  else if !is2($8.some): Content::Unknown
  else Content::EmbeddedFile($1.ok)
=> if !is1($1): 
  if !is1($2): 
    if !is1($3): Err(E)
    else if !is1($4): 
      if !is1($5): 
        if !is1($6): 
          if !is1($8): Err(E)
          else Ok($9)
        else if !is1($8): Err(E)
        else if is20($8.some): Err(E)
        else Ok($9)
      else if !is1($6): 
        if !is1($8): Err(E)
        else if is3($8.some): Err(E)
        else Ok($9)
      else if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is3($8.some): Err(E)
      else Ok($9)
    else if !is1($5): 
      if is1($6): 
        if !is1($8): Err(E)
        else if is20($8.some): Err(E)
        else if is25($8.some): Err(E)
        else Ok($9)
      else if !is1($8): Err(E)
      else if is20($8.some): Ok($9)
      else if is25($8.some): Err(E)
      else Ok($9)
    else if is1($6): 
      if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is25($8.some): Err(E)
      else if is3($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Ok($9)
    else if is25($8.some): Err(E)
    else if is3($8.some): Err(E)
    else Ok($9)
  else if !is1($3): Err(E)
  else if !is1($4): 
    if is1($5): 
      if !is1($6): 
        if !is1($8): Err(E)
        else if is3($8.some): Err(E)
        else if is16($8.some): Err(E)
        else Ok($9)
      else if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is3($8.some): Err(E)
      else if is16($8.some): Err(E)
      else Ok($9)
    else if !is1($6): 
      if !is1($8): Err(E)
      else if is3($8.some): Ok($9)
      else if is16($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is3($8.some): Ok($9)
    else if is16($8.some): Err(E)
    else Ok($9)
  else if is1($5): 
    if is1($6): 
      if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is25($8.some): Err(E)
      else if is3($8.some): Err(E)
      else if is16($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Ok($9)
    else if is25($8.some): Err(E)
    else if is3($8.some): Err(E)
    else if is16($8.some): Err(E)
    else Ok($9)
  else if is1($6): 
    if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is25($8.some): Err(E)
    else if is3($8.some): Ok($9)
    else if is16($8.some): Err(E)
    else Ok($9)
  else if !is1($8): Err(E)
  else if is20($8.some): Ok($9)
  else if is25($8.some): Err(E)
  else if is3($8.some): Ok($9)
  else if is16($8.some): Err(E)
  else Ok($9)
else if !is1($2): 
  if !is1($3): Err(E)
  else if !is1($4): 
    if !is1($5): 
      if !is1($6): 
        if !is1($8): Err(E)
        else if is2($8.some): Err(E)
        else Ok($9)
      else if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is2($8.some): Err(E)
      else Ok($9)
    else if !is1($6): 
      if !is1($8): Err(E)
      else if is3($8.some): Err(E)
      else if is2($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is3($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if !is1($5): 
    if is1($6): 
      if !is1($8): Err(E)
      else if is20($8.some): Err(E)
      else if is25($8.some): Err(E)
      else if is2($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Ok($9)
    else if is25($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if is1($6): 
    if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is25($8.some): Err(E)
    else if is3($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if !is1($8): Err(E)
  else if is20($8.some): Ok($9)
  else if is25($8.some): Err(E)
  else if is3($8.some): Err(E)
  else if is2($8.some): Err(E)
  else Ok($9)
else if !is1($3): Err(E)
else if !is1($4): 
  if is1($5): 
    if !is1($6): 
      if !is1($8): Err(E)
      else if is3($8.some): Err(E)
      else if is16($8.some): Err(E)
      else if is2($8.some): Err(E)
      else Ok($9)
    else if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is3($8.some): Err(E)
    else if is16($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if !is1($6): 
    if !is1($8): Err(E)
    else if is3($8.some): Ok($9)
    else if is16($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if !is1($8): Err(E)
  else if is20($8.some): Err(E)
  else if is3($8.some): Ok($9)
  else if is16($8.some): Err(E)
  else if is2($8.some): Err(E)
  else Ok($9)
else if is1($5): 
  if is1($6): 
    if !is1($8): Err(E)
    else if is20($8.some): Err(E)
    else if is25($8.some): Err(E)
    else if is3($8.some): Err(E)
    else if is16($8.some): Err(E)
    else if is2($8.some): Err(E)
    else Ok($9)
  else if !is1($8): Err(E)
  else if is20($8.some): Ok($9)
  else if is25($8.some): Err(E)
  else if is3($8.some): Err(E)
  else if is16($8.some): Err(E)
  else if is2($8.some): Err(E)
  else Ok($9)
else if is1($6): 
  if !is1($8): Err(E)
  else if is20($8.some): Err(E)
  else if is25($8.some): Err(E)
  else if is3($8.some): Ok($9)
  else if is16($8.some): Err(E)
  else if is2($8.some): Err(E)
  else Ok($9)
else if !is1($8): Err(E)
else if is20($8.some): Ok($9)
else if is25($8.some): Err(E)
else if is3($8.some): Ok($9)
else if is16($8.some): Err(E)
else if is2($8.some): Err(E)
else Ok($9)

