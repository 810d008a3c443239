PROPERTY = "P10"
HOST = "src/fsshttpb/data/stream_object.rs"
NEEDS = "an end header whose type differs from the expected one only in its upper bits"
BREAKS = "only the lower eight bits of the 16-bit end header's type are compared"
EDITS = [("src/fsshttpb/data/stream_object.rs", "        let object_type_value = data >> 2;\n\n        if let Some(object_type) = ObjectType::from_u16(object_type_value) {\n            Ok(object_type)\n        } else {\n            Err(ErrorKind::MalformedFssHttpBData(\n                format!(\"invalid object type: 0x{:x}\", object_type_value).into(),\n            )\n            .into())\n        }\n    }\n\n    pub(crate) fn try_parse_end_8",
"        let object_type_value = (data >> 2) & 0xff;\n\n        if let Some(object_type) = ObjectType::from_u16(object_type_value) {\n            Ok(object_type)\n        } else {\n            Err(ErrorKind::MalformedFssHttpBData(\n                format!(\"invalid object type: 0x{:x}\", object_type_value).into(),\n            )\n            .into())\n        }\n    }\n\n    pub(crate) fn try_parse_end_8")]
DEMO = '''use super::*;
#[test]
fn end_header_of_another_type() {
    let t = ObjectType::DataElementPackage as u16;
    let wrong = ((t | 0x100) << 2 | 3).to_le_bytes();
    assert!(ObjectHeader::try_parse_end_16(&mut crate::reader::Reader::new(&wrong), ObjectType::DataElementPackage).is_err());
    let right = (t << 2 | 3).to_le_bytes();
    assert!(ObjectHeader::try_parse_end_16(&mut crate::reader::Reader::new(&right), ObjectType::DataElementPackage).is_ok());
}
'''
