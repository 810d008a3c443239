"""Which units decide which property (selectors over file and function name), and the
additional rules run for it."""
import re

OT = "onestore/types/"
DE = "fsshttpb/data_element/"
D = "fsshttpb/data/"
ONE = "one/property/"
PS = "one/property_set/"
ON = "onenote/"

# property -> list of (file prefix, name regex)
SPEC = {
    "P07": [("reader.rs", ""), (OT + "property.rs", "^parse"), (D + "binary_item.rs", ""),
            (D + "compact_u64.rs", "parse"), (D + "exguid.rs", "parse"), ("shared/guid.rs", "^parse$"), (OT + "compact_id.rs", "parse"),
            ("fsshttpb/", "parse"), (OT, "parse"), ("shared/", "parse"), ("onestore/header.rs", ""), (ONE, "parse")],
    "P08": [(D + "stream_object.rs", "^parse"), (D + "compact_u64.rs", ""), (D + "exguid.rs", "parse"),
            (OT + "property.rs", "^(new|value|id|prop_type|bool|parse)$"), (OT + "compact_id.rs", ""),
            (OT + "object_stream_header.rs", ""), (OT + "jcid.rs", ""), (D + "object_types.rs", ""), (ONE + "layout_alignment.rs", ""),
            (ONE + "color", ""), (ONE + "note_tag_property_status.rs", ""), (ONE + "note_tag.rs", ""),
            (D + "serial_number.rs", ""), (D + "cell_id.rs", ""), (OT + "property.rs", "^parse"),
            (D + "stream_object.rs", "")],
    "P09": [("fsshttpb/", "parse|end"), (OT, "parse"), ("onestore/header.rs", ""), ("fsshttpb/packaging.rs", ""),
            (D, "value"), (OT + "object_prop_set.rs", ""), ("shared/guid.rs", "^parse$"), ("reader.rs", "")],
    "P10": [(D + "stream_object.rs", ""), (DE, "parse"), ("fsshttpb/packaging.rs", ""), (DE + "data_element_fragment", ""),
            (D + "object_types.rs", "")],
    "P11": [(DE, "^parse"), (D + "object_types.rs", ""), (OT + "property.rs", ""), (PS + "mod.rs", ""),
            ("onestore/revision_role.rs", ""), (ON + "content.rs", "^parse"), (ON + "page_content.rs", "^parse"),
            (ON + "outline.rs", "^parse"), (ON + "table.rs", "^parse"), (ON + "page.rs", "^parse"),
            (ON + "rich_text.rs", "^parse"), (ONE, "parse"), (D + "stream_object.rs", "parse"), (OT + "jcid.rs", ""),
            ("fsshttpb/packaging.rs", "parse"),
            (ON, "^parse")],
    "P12": [("shared/guid.rs", ""), (D + "exguid.rs", ""), (ONE + "simple.rs", "guid")],
    "P13": [("fsshttpb/packaging.rs", ""), ("onestore/header.rs", ""), ("onestore/mod.rs", "")],
    "P14": [("onestore/object_space.rs", ""), ("onestore/revision.rs", ""), ("onestore/revision_role.rs", ""),
            (DE + "revision_manifest.rs", ""), (D + "exguid.rs", "nil|option"), (DE + "mod.rs", ""), (DE + "storage_index.rs", ""), ("onestore/mod.rs", "")],
    "P15": [(ONE + "object_reference.rs", ""), (ONE + "object_space_reference.rs", ""), (ONE + "references.rs", ""),
            (PS + "note_tag_container.rs", ""), (PS + "text_run_data.rs", ""), (OT + "prop_set.rs", ""),
            (OT + "object_prop_set.rs", ""), (OT + "property.rs", "^to_"), ("onestore/object.rs", "^(props|mapping|id|context_id)$"),
            ("onestore/mapping_table.rs", ""), ("onestore/object.rs", "parse")],
    "P16": [("onestore/mapping_table.rs", ""), ("onestore/object.rs", "parse|mapping"), (OT + "compact_id.rs", ""),
            (ONE + "object_reference.rs", "resolve|parse"), (ONE + "object_space_reference.rs", "resolve|parse"),
            (PS + "text_run_data.rs", ""), (PS + "note_tag_container.rs", ""), (OT + "object_prop_set.rs", ""), (OT + "object_stream_header.rs", "")],
    "P17": [(DE + "mod.rs", ""), (DE + "storage_index.rs", ""), ("onestore/mod.rs", ""), ("onestore/object_space.rs", ""),
            ("onestore/revision.rs", ""), ("onestore/revision_role.rs", ""), ("onestore/object.rs", ""),
            (DE + "storage_manifest.rs", ""), (DE + "cell_manifest.rs", ""), (D + "cell_id.rs", ""), (D + "exguid.rs", "nil|option|from")],
    "P18": [(PS, "parse$|jcid|assert"), (OT + "jcid.rs", ""), ("onestore/object.rs", "^(parse|id)$"), (ON + "content.rs", "^parse"), (ON + "page_content.rs", "^parse"),
            (ON + "outline.rs", "^parse"), (ON + "page.rs", "^parse"),
            (ON, "^parse")],
    "P19": [(PS, ""), (ONE, ""), (OT + "prop", ""), (OT + "object_prop_set.rs", ""), ("onestore/object.rs", "^(props|file_data|id)$"),
            ("utils.rs", "")],
    "P20": [(ON, ""), (ONE, "^(?!parse|resolve|from_|get_|to_)"),
            (PS, "parse")],
    "P21": [(ON, "parse|entries|items|contents|children|rows|cells|pages|series|strokes|path|tags|list|outlines"),
            (ONE + "references.rs", ""), (ONE + "object_reference.rs", ""), (ONE + "object_space_reference.rs", ""),
            (PS + "toc_container.rs", ""), (PS, "parse$"), (ONE + "simple.rs", "vec"), (ONE + "ink_dimensions.rs", "")],
    "P22": [(ONE, ""), (ON + "note_tag.rs", "parse"), (PS + "math_inline_object.rs", ""), (PS + "number_list_node.rs", ""),
            (PS + "iframe_node.rs", ""), (ON + "iframe.rs", ""), (PS + "outline_node.rs", ""), (PS + "stroke_properties_node.rs", ""),
            (ON + "list.rs", "parse"), (ON + "ink.rs", "parse"), (ON + "math_inline_object.rs", ""),
            (PS, "parse")],
    "P23": [("utils.rs", ""), (ONE + "simple.rs", "ascii|string|vec"), (PS + "rich_text_node.rs", ""),
            (ON + "rich_text.rs", ""), (PS + "math_inline_object.rs", ""), (ON + "math_inline_object.rs", ""),
            (PS + "paragraph_style_object.rs", ""), (PS + "text_run_data.rs", ""), (PS + "number_list_node.rs", ""),
            (ONE + "charset.rs", ""), (ONE + "author.rs", ""), (PS + "embedded_ink", ""),
            (PS, "parse")],
    "P24": [(ON + "mod.rs", ""),
            (ON + "notebook.rs", ""), (PS + "toc_container.rs", "")],
    "P26": [(ON + "mod.rs", "parse"), ("onestore/mod.rs", "schema_guid|parse_store$"), ("onestore/header.rs", "")],
    "P28": [],
    "P29": [(ON + "mod.rs", ""), (ON + "section.rs", ""),
            (PS + "section", ""),
            (ON + "notebook.rs", "")],
    "P31": [(ON + "ink.rs", ""), ("shared/multi_byte.rs", ""), (ONE + "ink_dimensions.rs", ""),
            (PS + "stroke_properties_node.rs", ""), (PS + "ink_", ""), (PS + "embedded_ink", ""),
            (ON + "rich_text.rs", "ink"),
            (ONE + "simple.rs", "")],
    "P32": [("onestore/object.rs", ""), ("onestore/revision.rs", ""), (DE + "object_group.rs", ""),
            (DE + "mod.rs", "find_objects|find_blob|find_object_group"), (DE + "object_data_blob.rs", ""),
            (PS + "embedded_file_container.rs", ""), (PS + "picture_container.rs", ""),
            (PS + "picture", ""), (PS + "embedded_file", ""), (ON + "image.rs", "^parse"), (ON + "embedded_file.rs", "^parse"), ("onestore/object_space.rs", "")],
}


def unit_files(prog_ref_spans):
    return prog_ref_spans


def select(pid, units):
    """units: {unit id: (file, name)} -> sorted ids"""
    out = []
    for u, (f, n) in units.items():
        f = f.replace("src/", "", 1)
        for pre, rx in SPEC.get(pid, []):
            if f.startswith(pre) and re.search(rx, n):
                out.append(u)
                break
    return sorted(out)
