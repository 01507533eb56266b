#prelude
/// the codes the formats define
pub proof fn pin_PropertySetId() ensures
    PropertySetId::AuthorContainer.vx_disc() == 0x00120001,
    PropertySetId::EmbeddedFileContainer.vx_disc() == 0x00080036,
    PropertySetId::EmbeddedFileNode.vx_disc() == 0x00060035,
    PropertySetId::ImageNode.vx_disc() == 0x00060011,
    PropertySetId::NoteTagSharedDefinitionContainer.vx_disc() == 0x00120043,
    PropertySetId::NumberListNode.vx_disc() == 0x00060012,
    PropertySetId::OutlineElementNode.vx_disc() == 0x0006000D,
    PropertySetId::OutlineGroup.vx_disc() == 0x00060019,
    PropertySetId::OutlineNode.vx_disc() == 0x0006000C,
    PropertySetId::PageManifestNode.vx_disc() == 0x00060037,
    PropertySetId::PageMetadata.vx_disc() == 0x00020030,
    PropertySetId::PageNode.vx_disc() == 0x0006000B,
    PropertySetId::PageSeriesNode.vx_disc() == 0x00060008,
    PropertySetId::ParagraphStyleObject.vx_disc() == 0x0012004D,
    PropertySetId::PictureContainer.vx_disc() == 0x00080039,
    PropertySetId::RevisionMetadata.vx_disc() == 0x00020044,
    PropertySetId::RichTextNode.vx_disc() == 0x0006000E,
    PropertySetId::SectionMetadata.vx_disc() == 0x00020031,
    PropertySetId::SectionNode.vx_disc() == 0x00060007,
    PropertySetId::TableCellNode.vx_disc() == 0x00060024,
    PropertySetId::TableNode.vx_disc() == 0x00060022,
    PropertySetId::TableRowNode.vx_disc() == 0x00060023,
    PropertySetId::TitleNode.vx_disc() == 0x0006002C,
    PropertySetId::TocContainer.vx_disc() == 0x00020001,
    PropertySetId::XpsContainer.vx_disc() == 0x0008003A,
    PropertySetId::InkContainer.vx_disc() == 0x00060014,
    PropertySetId::InkDataNode.vx_disc() == 0x0002003B,
    PropertySetId::InkStrokeNode.vx_disc() == 0x00020047,
    PropertySetId::StrokePropertiesNode.vx_disc() == 0x00120048,
    PropertySetId::IFrameNode.vx_disc() == 0x00060058,
{}
#fn PropertySetId::as_jcid
ensures r == JcId(self.vx_disc() as u32)
#fn PropertySetId::from_jcid
ensures r == PropertySetId::vx_of(id.0 as int)
#fn assert_property_set
ensures match r { Ok(_) => object.jc_id == JcId(expected.vx_disc() as u32), Err(_) => object.jc_id != JcId(expected.vx_disc() as u32) }
