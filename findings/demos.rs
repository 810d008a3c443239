// Demonstrations of the genuine defects found by the checks. run.sh appends this file as a
// test module to a scratch copy of the crate. Every test fails on the original tree
// (7db4035) and passes on the repaired one.
use super::*;
use crate::fsshttpb::data::serial_number::SerialNumber;
use crate::fsshttpb::data_element::revision_manifest::{RevisionManifest, RevisionManifestRootDeclare};
use crate::fsshttpb::data_element::{DataElement, DataElementPackage};
use crate::one::property::PropertyType;
use crate::one::property::object_reference::ObjectReference;
use crate::one::property::object_space_reference::ObjectSpaceReference;
use crate::one::property_set::*;
use crate::onestore::mapping_table::MappingTable;
use crate::onestore::types::compact_id::CompactId;
use crate::onestore::types::jcid::JcId;
use crate::onestore::types::object_prop_set::ObjectPropSet;
use crate::reader::Reader;
use crate::shared::guid::Guid;

const ALL: u32 = 0xFFFF_FFFF;

fn cid(n: u32) -> [u8; 4] {
    ((n << 8) | 1).to_le_bytes()
}
fn compact(n: u32) -> CompactId {
    CompactId::parse(&mut Reader::new(&cid(n))).unwrap()
}
fn ex(n: u32) -> ExGuid {
    ExGuid::from_guid(guid!("11111111-2222-3333-4444-555555555555"), n)
}
/// props: (property id, payload bytes); oids: compact id numbers, mapped to ex(100 + position)
fn object(jcid: u32, props: &[(u32, Vec<u8>)], oids: &[u32], osids: &[u32]) -> Object<'static> {
    let mut d = vec![];
    d.extend((oids.len() as u32).to_le_bytes());
    oids.iter().for_each(|i| d.extend(cid(*i)));
    d.extend((osids.len() as u32).to_le_bytes());
    osids.iter().for_each(|i| d.extend(cid(*i)));
    d.extend((props.len() as u16).to_le_bytes());
    props.iter().for_each(|(id, _)| d.extend(id.to_le_bytes()));
    props.iter().for_each(|(_, b)| d.extend(b));
    let props = ObjectPropSet::parse(&mut Reader::new(&d)).unwrap();
    Object {
        context_id: ex(0),
        jc_id: JcId(jcid),
        props,
        file_data: None,
        mapping: MappingTable::from_entries(
            oids.iter().enumerate().map(|(i, c)| (compact(*c), ex(100 + i as u32))).collect::<Vec<_>>().into_iter(),
            osids.iter().enumerate().map(|(i, c)| (compact(*c), CellId(ex(0), ex(200 + i as u32)))).collect::<Vec<_>>().into_iter(),
        ),
    }
}
fn vec_prop(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}
fn u32_prop(v: u32) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}
fn space(objects: Vec<(u32, Object<'static>)>) -> ObjectSpace<'static> {
    ObjectSpace {
        id: ex(0),
        context: ex(0),
        roots: HashMap::new(),
        objects: objects.into_iter().map(|(i, o)| (ex(i), o)).collect(),
    }
}

#[test]
fn p01_empty_number_list_format() {
    let o = object(0x00060012, &[(0x14001D7A, u32_prop(1)), (0x1C001C1A, vec_prop(&[]))], &[], &[]);
    assert!(number_list_node::parse(&o).unwrap().list_format.is_empty());
}

#[test]
fn p01_missing_embedded_ink_reference() {
    // two embedded objects without type, but only one data object reference
    let mut run = 2u32.to_le_bytes().to_vec();
    run.extend(0x44000811u32.to_le_bytes());
    run.extend([0, 0, 0, 0]);
    let text = object(0x0006000E, &[
        (0x14001D7A, u32_prop(1)),
        (0x24001E13, u32_prop(2)),
        (0x24003458, u32_prop(1)),
        (0x2000342C, vec![]),
        (0x40003499, run),
    ], &[1, 2, 3, 4], &[]);
    let style = |embedded: bool| object(0x0012004D, &[(0x08001E22 | (embedded as u32) << 31, vec![])], &[], &[]);
    let ink = object(0x0002003B, &[(0x24003416, u32_prop(0))], &[], &[]);
    let s = space(vec![(1, text), (100, style(true)), (101, style(true)), (102, ink), (103, style(false))]);
    assert!(crate::onenote::rich_text::parse_rich_text(ex(1), &s).is_err());
}

#[test]
fn p19_stroke_size() {
    let o = object(0x00120048, &[
        (0x1400340C, u32_prop(2f32.to_bits())),
        (0x1400340D, u32_prop(3f32.to_bits())),
        (0x1C00340A, vec_prop(&[])),
    ], &[], &[]);
    let d = stroke_properties_node::parse(&o).unwrap();
    assert_eq!((d.ink_height, d.ink_width), (2.0, 3.0));
}

#[test]
fn p31_ink_scaling_y() {
    let o = object(0x00060014, &[(0x14001C46, u32_prop(2f32.to_bits())), (0x14001C47, u32_prop(3f32.to_bits()))], &[], &[]);
    let d = ink_container::parse(&o).unwrap();
    assert_eq!((d.ink_scaling_x, d.ink_scaling_y), (Some(2.0), Some(3.0)));
}

#[test]
fn p10_fragment_end() {
    // header (0x06A, compound... ) of a data element fragment, id, size, offset, length, end
    let mut d = vec![];
    let h: u32 = 0x2 | (0x06A << 3) | (5 << 17);
    d.extend(h.to_le_bytes());
    d.extend([0x00]); // null exguid
    d.extend([0x03, 0x00, 0x03]); // size 1, offset 0, length 1
    d.extend([0xAA]);
    d.extend([0x05]); // data element end
    let mut r = Reader::new(&d);
    DataElement::parse_data_element_fragment(&mut r).unwrap();
    assert_eq!(r.remaining(), 0);
}

#[test]
fn p15_object_space_reference_position() {
    // same compact id twice: the stream position decides
    let o = object(0x00060008, &[(0x28000001, vec![]), (0x2C001D63, u32_prop(1))], &[], &[7, 7]);
    let ids = ObjectSpaceReference::parse_vec(PropertyType::ChildGraphSpaceElementNodes, &o).unwrap().unwrap();
    assert_eq!(ids, vec![CellId(ex(0), ex(201))]);
}

#[test]
fn p05_unmapped_object_space_reference() {
    let mut o = object(0x00060008, &[(0x2C001D63, u32_prop(1))], &[], &[7]);
    o.mapping = MappingTable::from_entries(std::iter::empty(), std::iter::empty());
    assert!(ObjectSpaceReference::parse_vec(PropertyType::ChildGraphSpaceElementNodes, &o).is_err());
}

#[test]
fn p15_reference_count_exceeds_stream() {
    let o = object(0x00060007, &[(0x24001C20, u32_prop(3))], &[1, 2], &[]);
    assert!(ObjectReference::parse_vec(PropertyType::ElementChildNodes, &o).is_err());
}

fn tags() -> Object<'static> {
    let mut v = 2u32.to_le_bytes().to_vec();
    v.extend(0x44000811u32.to_le_bytes());
    for _ in 0..2 {
        v.extend(4u16.to_le_bytes());
        for id in [0x20003488u32, 0x1400346E, 0x10003470, 0x28000001] {
            v.extend(id.to_le_bytes());
        }
        v.extend(1u32.to_le_bytes());
        v.extend(0u16.to_le_bytes());
    }
    object(0x0006000E, &[(0x40003489, v)], &[1, 2], &[3, 4])
}

#[test]
fn p15_second_note_tag() {
    let d = note_tag_container::Data::parse(&tags()).unwrap().unwrap();
    assert_eq!(d.iter().map(|t| t.definition).collect::<Vec<_>>(), vec![Some(ex(100)), Some(ex(101))]);
}

#[test]
fn p15_nested_object_space_ids() {
    let mut v = 1u32.to_le_bytes().to_vec();
    v.extend(0x44000811u32.to_le_bytes());
    v.extend(1u16.to_le_bytes());
    v.extend(0x28000001u32.to_le_bytes());
    let o = object(0x0006000E, &[(0x40003499, v)], &[1], &[3]);
    let objs = text_run_data::parse(&o).unwrap().unwrap();
    assert_eq!(objs[0].props().object_space_ids(), &[compact(3)]);
}

#[test]
fn p22_page_size() {
    let o = object(0x0006000B, &[(0x14001C8B, u32_prop(6))], &[], &[]);
    let p = crate::one::property::page_size::PageSize::parse(PropertyType::PageSize, &o).unwrap();
    assert_eq!(format!("{:?}", p), "Some(IsoA4)");
}

#[test]
fn p31_truncated_and_oversized_integers() {
    use crate::shared::multi_byte::decode_signed;
    assert!(decode_signed(&[0x02, 0x81]).is_err());
    assert!(decode_signed(&[0x02, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02]).is_err());
}

fn packaging(manifests: Vec<(u32, RevisionManifest)>) -> OneStorePackaging {
    OneStorePackaging {
        file_type: Guid::nil(),
        file: Guid::nil(),
        legacy_file_version: Guid::nil(),
        file_format: Guid::nil(),
        storage_index: ex(0),
        cell_schema: Guid::nil(),
        data_element_package: DataElementPackage {
            storage_indexes: Default::default(),
            storage_manifests: Default::default(),
            cell_manifests: Default::default(),
            revision_manifests: manifests.into_iter().map(|(i, m)| (ex(i), m)).collect(),
            object_groups: Default::default(),
            data_element_fragments: Default::default(),
            object_data_blobs: Default::default(),
        },
    }
}
fn parse_space(manifests: Vec<(u32, RevisionManifest)>, first: u32) -> Result<Option<ExGuid>> {
    let p = packaging(manifests);
    let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    let mapping = StorageIndexCellMapping {
        cell_id: CellId(ex(0), ex(0)),
        id: ex(first),
        serial: SerialNumber { guid: Guid::nil(), serial: 0 },
    };
    let mut cache = HashMap::new();
    ObjectSpace::parse(&mapping, &index, &p, &mut cache).map(|(_, s)| s.content_root())
}
fn manifest(rev: u32, base: Option<u32>, root: u32) -> RevisionManifest {
    RevisionManifest {
        rev_id: ex(rev),
        base_rev_id: base.map(ex).unwrap_or(ExGuid::from_guid(Guid::nil(), 0)),
        root_declare: vec![RevisionManifestRootDeclare {
            root_id: ExGuid::from_guid(guid!("4A3717F8-1C14-49E7-9526-81D942DE1741"), 1),
            object_id: ex(root),
        }],
        group_references: vec![],
    }
}

#[test]
fn p02_revision_cycle() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = parse_space(vec![(1, manifest(1, Some(2), 10)), (2, manifest(2, Some(1), 20))], 1);
        tx.send(r.is_err()).ok();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).expect("endless revision chain"));
}

#[test]
fn p14_newest_root() {
    let r = parse_space(vec![(1, manifest(1, Some(2), 10)), (2, manifest(2, None, 20))], 1).unwrap();
    assert_eq!(r, Some(ex(10)));
}

#[test]
fn p28_ambiguous_serial() {
    use crate::fsshttpb::data_element::storage_index::StorageIndexRevisionMapping;
    let seen: std::collections::HashSet<_> = (0..64)
        .map(|_| {
            let index = StorageIndex {
                manifest_mappings: vec![],
                cell_mappings: Default::default(),
                revision_mappings: (0..8)
                    .map(|i| (ex(i), StorageIndexRevisionMapping {
                        revision_mapping: ex(100 + i),
                        serial: SerialNumber { guid: Guid::nil(), serial: 0 },
                    }))
                    .collect(),
            };
            index.find_revision_mapping_by_serial(&SerialNumber { guid: Guid::nil(), serial: 0 })
        })
        .collect();
    assert_eq!(seen.len(), 1);
}

#[test]
fn p28_ambiguous_storage_index() {
    let seen: std::collections::HashSet<_> = (0..64)
        .map(|_| {
            let mut p = packaging(vec![]);
            for i in 0..8 {
                p.data_element_package.storage_indexes.insert(ex(i), StorageIndex {
                    manifest_mappings: vec![crate::fsshttpb::data_element::storage_index::StorageIndexManifestMapping {
                        mapping_id: ex(i),
                        serial: SerialNumber { guid: Guid::nil(), serial: 0 },
                    }],
                    cell_mappings: Default::default(),
                    revision_mappings: Default::default(),
                });
            }
            p.data_element_package.find_storage_index().map(|i| i.manifest_mappings[0].mapping_id)
        })
        .collect();
    assert_eq!(seen.len(), 1);
}

#[test]
fn p03_nested_property_sets() {
    let mut d = (1u32 << 31).to_le_bytes().to_vec();
    for _ in 0..1_000_000 {
        d.extend(1u16.to_le_bytes());
        d.extend((0x11u32 << 26 | 1).to_le_bytes());
    }
    assert!(ObjectPropSet::parse(&mut Reader::new(&d)).is_err());
}

#[test]
fn p03_cyclic_outline() {
    let group = object(0x00060019, &[(0x24001C20, u32_prop(1)), (0x0C001C03, vec![1])], &[1], &[]);
    let mut s = space(vec![(100, group)]);
    let outline = object(0x0006000C, &[
        (0x24001C20, u32_prop(1)),
        (0x1C001C12, vec_prop(&[0, 0, 0, 0])),
        (0x0C001C03, vec![1]),
        (0x14001D7A, u32_prop(1)),
    ], &[1], &[]);
    s.objects.insert(ex(1), outline);
    assert!(crate::onenote::outline::parse_outline(ex(1), &s).is_err());
}

#[test]
fn p03_cyclic_toc() {
    let toc = object(0x00020001, &[(0x24001CF6, u32_prop(1))], &[1], &[]);
    let mut s = space(vec![(100, toc)]);
    s.roots.insert(RevisionRole::DefaultContent, ex(100));
    assert!(crate::onenote::notebook::parse_toc(&s).is_err());
}

#[test]
fn p03_cyclic_table() {
    // element -> table -> row -> cell -> element
    let lvl = |p: u32| (p, u32_prop(1));
    let time = (0x14001D7A, u32_prop(1));
    let element = object(0x0006000D, &[
        (0x24001C1F, u32_prop(1)), (0x0C001C03, vec![1]), time.clone(), (0x14001D09, u32_prop(1)),
        (0x20001D78, vec![]), (0x20001D79, vec![]),
    ], &[1, 1, 1], &[]);
    let table = object(0x00060022, &[(0x24001C20, u32_prop(1)), lvl(0x14001D57), lvl(0x14001D58), time.clone()], &[1], &[]);
    let row = object(0x00060023, &[(0x24001C20, u32_prop(1)), time.clone()], &[1], &[]);
    let cell = object(0x00060024, &[(0x24001C20, u32_prop(1)), (0x0C001C03, vec![1]), time, (0x1C001C12, vec_prop(&[0, 0, 0, 0]))], &[1], &[]);
    let mut s = space(vec![]);
    let outline = object(0x0006000C, &[
        (0x24001C20, u32_prop(1)),
        (0x1C001C12, vec_prop(&[0, 0, 0, 0])),
        (0x0C001C03, vec![1]),
        (0x14001D7A, u32_prop(1)),
    ], &[1], &[]);
    let at = |o: Object<'static>, i: u32| Object {
        mapping: MappingTable::from_entries(vec![(compact(1), ex(i))].into_iter(), vec![].into_iter()),
        ..o
    };
    s.objects.insert(ex(1), at(outline, 2));
    s.objects.insert(ex(2), at(element, 3));
    s.objects.insert(ex(3), at(table, 4));
    s.objects.insert(ex(4), at(row, 5));
    s.objects.insert(ex(5), at(cell, 2));
    let e = format!("{}", crate::onenote::outline::parse_outline(ex(1), &s).unwrap_err());
    assert!(e.contains("nested"), "{}", e);
}

#[test]
fn p03_deep_section_groups() {
    let toc = std::fs::read("tests/samples/Open Notebook.onetoc2").unwrap();
    let wide = |s: &str| s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>();
    let (old, new) = (wide("New Section 1.one"), wide("./././././././././a"[2..].into()));
    let at = toc.windows(old.len()).position(|w| w == old).unwrap();
    let mut toc = toc;
    toc[at..at + old.len()].copy_from_slice(&new);
    let root = tempfile::tempdir().unwrap();
    let mut dir = root.path().to_path_buf();
    for _ in 0..1900 {
        std::fs::write(dir.join("Open Notebook.onetoc2"), &toc).unwrap();
        dir.push("a");
        std::fs::create_dir(&dir).unwrap();
    }
    let e = crate::Parser::new().parse_notebook(&root.path().join("Open Notebook.onetoc2")).unwrap_err();
    assert!(format!("{}", e).contains("nested"), "{}", e);
}

#[test]
fn p10_metadata_declarations_end() {
    // object group metadata declarations: one metadata object (change frequency 1), then the
    // 16-bit end header of type 0x79 (a code an 8-bit end header cannot hold)
    let mut d = ((0x78u32 << 3) | 2 | (1 << 17)).to_le_bytes().to_vec();
    d.push(1 << 1 | 1);
    d.extend(((0x79u16 << 2) | 3).to_le_bytes());
    // object group data, empty, and the end of the data element
    d.extend(((0x1Eu16 << 3) | 4).to_le_bytes());
    d.push((0x1E << 2) | 1);
    d.push((0x01 << 2) | 1);
    // declarations: none
    let mut all = ((0x1Du16 << 3) | 4).to_le_bytes().to_vec();
    all.push((0x1D << 2) | 1);
    all.extend(((0x79u32 << 3) | 4 | 2).to_le_bytes());
    all.extend(d);
    let mut r = Reader::new(&all);
    let g = DataElement::parse_object_group(&mut r).unwrap();
    assert_eq!(g.metadata.len(), 1);
    assert_eq!(r.remaining(), 0);
}
