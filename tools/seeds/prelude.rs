#![allow(unused, dead_code)]
use super::*;
use crate::fsshttpb::data::serial_number::SerialNumber;
use crate::fsshttpb::data_element::revision_manifest::{RevisionManifest, RevisionManifestRootDeclare};
use crate::fsshttpb::data_element::{DataElement, DataElementPackage};
use crate::one::property::PropertyType;
use crate::one::property::object_reference::ObjectReference;
use crate::one::property::object_space_reference::ObjectSpaceReference;
use crate::one::property_set::*;
use crate::onestore::mapping_table::MappingTable;
use crate::onestore::types::compact_id::CompactId;
use crate::onestore::types::jcid::JcId;
use crate::onestore::types::object_prop_set::ObjectPropSet;
use crate::reader::Reader;
use crate::shared::guid::Guid;

const ALL: u32 = 0xFFFF_FFFF;

fn cid(n: u32) -> [u8; 4] {
    ((n << 8) | 1).to_le_bytes()
}
fn compact(n: u32) -> CompactId {
    CompactId::parse(&mut Reader::new(&cid(n))).unwrap()
}
fn ex(n: u32) -> ExGuid {
    ExGuid::from_guid(guid!("11111111-2222-3333-4444-555555555555"), n)
}
/// props: (property id, payload bytes); oids: compact id numbers, mapped to ex(100 + position)
fn object(jcid: u32, props: &[(u32, Vec<u8>)], oids: &[u32], osids: &[u32]) -> Object<'static> {
    let mut d = vec![];
    d.extend((oids.len() as u32).to_le_bytes());
    oids.iter().for_each(|i| d.extend(cid(*i)));
    d.extend((osids.len() as u32).to_le_bytes());
    osids.iter().for_each(|i| d.extend(cid(*i)));
    d.extend((props.len() as u16).to_le_bytes());
    props.iter().for_each(|(id, _)| d.extend(id.to_le_bytes()));
    props.iter().for_each(|(_, b)| d.extend(b));
    let props = ObjectPropSet::parse(&mut Reader::new(&d)).unwrap();
    Object {
        context_id: ex(0),
        jc_id: JcId(jcid),
        props,
        file_data: None,
        mapping: MappingTable::from_entries(
            oids.iter().enumerate().map(|(i, c)| (compact(*c), ex(100 + i as u32))).collect::<Vec<_>>().into_iter(),
            osids.iter().enumerate().map(|(i, c)| (compact(*c), CellId(ex(0), ex(200 + i as u32)))).collect::<Vec<_>>().into_iter(),
        ),
    }
}
fn vec_prop(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}
fn u32_prop(v: u32) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}
fn space(objects: Vec<(u32, Object<'static>)>) -> ObjectSpace<'static> {
    ObjectSpace {
        id: ex(0),
        context: ex(0),
        roots: HashMap::new(),
        objects: objects.into_iter().map(|(i, o)| (ex(i), o)).collect(),
    }
}

fn packaging(manifests: Vec<(u32, RevisionManifest)>) -> OneStorePackaging {
    OneStorePackaging {
        file_type: Guid::nil(),
        file: Guid::nil(),
        legacy_file_version: Guid::nil(),
        file_format: Guid::nil(),
        storage_index: ex(0),
        cell_schema: Guid::nil(),
        data_element_package: DataElementPackage {
            storage_indexes: Default::default(),
            storage_manifests: Default::default(),
            cell_manifests: Default::default(),
            revision_manifests: manifests.into_iter().map(|(i, m)| (ex(i), m)).collect(),
            object_groups: Default::default(),
            data_element_fragments: Default::default(),
            object_data_blobs: Default::default(),
        },
    }
}
fn parse_space(manifests: Vec<(u32, RevisionManifest)>, first: u32) -> Result<Option<ExGuid>> {
    let p = packaging(manifests);
    let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    let mapping = StorageIndexCellMapping {
        cell_id: CellId(ex(0), ex(0)),
        id: ex(first),
        serial: SerialNumber { guid: Guid::nil(), serial: 0 },
    };
    let mut cache = HashMap::new();
    ObjectSpace::parse(&mapping, &index, &p, &mut cache).map(|(_, s)| s.content_root())
}
fn manifest(rev: u32, base: Option<u32>, root: u32) -> RevisionManifest {
    RevisionManifest {
        rev_id: ex(rev),
        base_rev_id: base.map(ex).unwrap_or(ExGuid::from_guid(Guid::nil(), 0)),
        root_declare: vec![RevisionManifestRootDeclare {
            root_id: ExGuid::from_guid(guid!("4A3717F8-1C14-49E7-9526-81D942DE1741"), 1),
            object_id: ex(root),
        }],
        group_references: vec![],
    }
}

