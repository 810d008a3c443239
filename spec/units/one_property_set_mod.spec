## crate::one::property_set::PropertySetId::as_jcid
=> JcId((discr[p0, isize, one::property_set::PropertySetId] as u32))

## crate::one::property_set::PropertySetId::from_jcid
=> if (p0.0 == 393223): Some(PropertySetId::SectionNode)
else if (p0.0 == 393228): Some(PropertySetId::OutlineNode)
else if (p0.0 == 1179649): Some(PropertySetId::AuthorContainer)
else if (p0.0 == 1179715): Some(PropertySetId::NoteTagSharedDefinitionContainer)
else if (p0.0 == 131140): Some(PropertySetId::RevisionMetadata)
else if (p0.0 == 393241): Some(PropertySetId::OutlineGroup)
else if (p0.0 == 524346): Some(PropertySetId::XpsContainer)
else if (p0.0 == 393250): Some(PropertySetId::TableNode)
else if (p0.0 == 524342): Some(PropertySetId::EmbeddedFileContainer)
else if (p0.0 == 393260): Some(PropertySetId::TitleNode)
else if (p0.0 == 131131): Some(PropertySetId::InkDataNode)
else if (p0.0 == 131073): Some(PropertySetId::TocContainer)
else if (p0.0 == 1179720): Some(PropertySetId::StrokePropertiesNode)
else if (p0.0 == 393229): Some(PropertySetId::OutlineElementNode)
else if (p0.0 == 131120): Some(PropertySetId::PageMetadata)
else if (p0.0 == 393269): Some(PropertySetId::EmbeddedFileNode)
else if (p0.0 == 393224): Some(PropertySetId::PageSeriesNode)
else if (p0.0 == 393236): Some(PropertySetId::InkContainer)
else if (p0.0 == 131143): Some(PropertySetId::InkStrokeNode)
else if (p0.0 == 393304): Some(PropertySetId::IFrameNode)
else if (p0.0 == 393227): Some(PropertySetId::PageNode)
else if (p0.0 == 131121): Some(PropertySetId::SectionMetadata)
else if (p0.0 == 1179725): Some(PropertySetId::ParagraphStyleObject)
else if (p0.0 == 524345): Some(PropertySetId::PictureContainer)
else if (p0.0 == 393233): Some(PropertySetId::ImageNode)
else if (p0.0 == 393251): Some(PropertySetId::TableRowNode)
else if (p0.0 == 393271): Some(PropertySetId::PageManifestNode)
else if (p0.0 == 393252): Some(PropertySetId::TableCellNode)
else if (p0.0 == 393234): Some(PropertySetId::NumberListNode)
else if !(p0.0 == 393230): None
else Some(PropertySetId::RichTextNode)

## crate::one::property_set::assert_property_set
$1 = one::property_set::PropertySetId::as_jcid(p1)
$2 = onestore::object::Object::id(p0)
=> if ($1 == $2): Ok(unit)
else Err(E)

