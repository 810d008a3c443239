## crate::onenote::table::Table::borders_visible
=> p0.borders_visible

## crate::onenote::table::Table::col_widths
=> p0.col_widths

## crate::onenote::table::Table::cols
=> p0.cols

## crate::onenote::table::Table::cols_locked
=> p0.cols_locked

## crate::onenote::table::Table::contents
=> p0.contents

## crate::onenote::table::Table::layout_alignment_in_parent
=> p0.layout_alignment_in_parent

## crate::onenote::table::Table::layout_alignment_self
=> p0.layout_alignment_self

## crate::onenote::table::Table::note_tags
=> p0.note_tags

## crate::onenote::table::Table::rows
=> p0.rows

## crate::onenote::table::TableCell::background_color
=> p0.background_color

## crate::onenote::table::TableCell::contents
=> p0.contents

## crate::onenote::table::TableCell::layout_max_width
=> p0.layout_max_width

## crate::onenote::table::TableCell::outline_indent_distance
=> p0.outline_indent_distance

## crate::onenote::table::TableRow::contents
=> p0.contents

## crate::onenote::table::parse_cell
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::table_cell_node::parse($1.some)
$3 = onenote::outline::parse_outline_element(elb[1], p1, p2)
$4 = lp[1, $2.ok.contents, (), (), (), is1($3)]
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else Ok(TableCell{contents: gen[$2.ok.contents, true, $3.ok, 1], background_color: $2.ok.background_color, layout_max_width: $2.ok.layout_max_width, outline_indent_distance: $2.ok.outline_indent_distance})

## crate::onenote::table::parse_row
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::table_row_node::parse($1.some)
$3 = onenote::table::parse_cell(elb[1], p1, p2)
$4 = lp[1, $2.ok.cells, (), (), (), is1($3)]
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else Ok(TableRow{contents: gen[$2.ok.cells, true, $3.ok, 1]})

## crate::onenote::table::parse_table
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::table_node::parse($1.some)
$3 = onenote::table::parse_row(elb[1], p1, p2)
$4 = lp[1, $2.ok.rows, (), (), (), is1($3)]
$5 = onenote::note_tag::parse_note_tags($2.ok.note_tags, p1)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else if is1($5): Err(E)
else Ok(Table{rows: $2.ok.row_count, cols: $2.ok.col_count, contents: gen[$2.ok.rows, true, $3.ok, 1], cols_locked: $2.ok.cols_locked, col_widths: $2.ok.col_widths, borders_visible: $2.ok.borders_visible, layout_alignment_in_parent: $2.ok.layout_alignment_in_parent, layout_alignment_self: $2.ok.layout_alignment_self, note_tags: $5.ok})

