#prelude
/// the codes the formats define
pub proof fn pin_PropertyType() ensures
    PropertyType::ActionItemSchemaVersion.vx_disc() == 0x0C003473,
    PropertyType::ActionItemStatus.vx_disc() == 0x10003470,
    PropertyType::ActionItemType.vx_disc() == 0x10003463,
    PropertyType::Author.vx_disc() == 0x1C001D75,
    PropertyType::AuthorMostRecent.vx_disc() == 0x20001D79,
    PropertyType::AuthorOriginal.vx_disc() == 0x20001D78,
    PropertyType::BodyTextAlignment.vx_disc() == 0x0C001C13,
    PropertyType::Bold.vx_disc() == 0x08001C04,
    PropertyType::CachedTitleString.vx_disc() == 0x1C001CF3,
    PropertyType::CachedTitleStringFromPage.vx_disc() == 0x1C001D3C,
    PropertyType::CannotBeSelected.vx_disc() == 0x08001CB2,
    PropertyType::Charset.vx_disc() == 0x0C001D01,
    PropertyType::ChildGraphSpaceElementNodes.vx_disc() == 0x2C001D63,
    PropertyType::ColumnCount.vx_disc() == 0x14001D58,
    PropertyType::ConflictingUserName.vx_disc() == 0x1C001D9E,
    PropertyType::ContentChildNodes.vx_disc() == 0x24001C1F,
    PropertyType::CreationTimeStamp.vx_disc() == 0x14001D09,
    PropertyType::Deletable.vx_disc() == 0x08001D0C,
    PropertyType::DescendantsCannotBeMoved.vx_disc() == 0x08001CF9,
    PropertyType::DisplayedPageNumber.vx_disc() == 0x14003480,
    PropertyType::EditRootRtl.vx_disc() == 0x08001C92,
    PropertyType::ElementChildNodes.vx_disc() == 0x24001C20,
    PropertyType::EmbeddedFileContainer.vx_disc() == 0x20001D9B,
    PropertyType::EmbeddedFileName.vx_disc() == 0x1C001D9C,
    PropertyType::EnableHistory.vx_disc() == 0x08001E1E,
    PropertyType::EnforceOutlineStructure.vx_disc() == 0x08001C91,
    PropertyType::FileAncestorIdentityGuid.vx_disc() == 0x1C001D95,
    PropertyType::FileIdentityGuid.vx_disc() == 0x1C001D94,
    PropertyType::FileLastCodeVersionThatWroteToIt.vx_disc() == 0x14001D99,
    PropertyType::FileNameCrc.vx_disc() == 0x14001D93,
    PropertyType::Font.vx_disc() == 0x1C001C0A,
    PropertyType::FontColor.vx_disc() == 0x14001C0C,
    PropertyType::FontSize.vx_disc() == 0x10001C0B,
    PropertyType::HasVersionPages.vx_disc() == 0x08003462,
    PropertyType::Hidden.vx_disc() == 0x08001E16,
    PropertyType::Highlight.vx_disc() == 0x14001C0D,
    PropertyType::Hyperlink.vx_disc() == 0x08001E14,
    PropertyType::HyperlinkProtected.vx_disc() == 0x08001E19,
    PropertyType::IRecordMedia.vx_disc() == 0x14001D24,
    PropertyType::ImageAltText.vx_disc() == 0x1C001E58,
    PropertyType::ImageFilename.vx_disc() == 0x1C001DD7,
    PropertyType::ImageUploadState.vx_disc() == 0x140034CB,
    PropertyType::IsBackground.vx_disc() == 0x08001D13,
    PropertyType::IsBoilerText.vx_disc() == 0x08001C88,
    PropertyType::IsConflictObjectForRender.vx_disc() == 0x08001D96,
    PropertyType::IsConflictObjectForSelection.vx_disc() == 0x08001DDB,
    PropertyType::IsConflictPage.vx_disc() == 0x08001D7C,
    PropertyType::IsDeletedGraphSpaceContent.vx_disc() == 0x00001DE9,
    PropertyType::IsLayoutSizeSetByUser.vx_disc() == 0x08001CBD,
    PropertyType::IsReadOnly.vx_disc() == 0x08001CDE,
    PropertyType::IsTitleDate.vx_disc() == 0x08001CB5,
    PropertyType::IsTitleText.vx_disc() == 0x08001CB4,
    PropertyType::IsTitleTime.vx_disc() == 0x08001C87,
    PropertyType::Italic.vx_disc() == 0x08001C05,
    PropertyType::LanguageId.vx_disc() == 0x14001C3B,
    PropertyType::LastModifiedTime.vx_disc() == 0x14001D7A,
    PropertyType::LastModifiedTimeStamp.vx_disc() == 0x18001D77,
    PropertyType::LayoutAlignmentInParent.vx_disc() == 0x14001C3E,
    PropertyType::LayoutAlignmentSelf.vx_disc() == 0x14001C84,
    PropertyType::LayoutCollisionPriority.vx_disc() == 0x14001CF1,
    PropertyType::LayoutMaxHeight.vx_disc() == 0x14001C1C,
    PropertyType::LayoutMaxWidth.vx_disc() == 0x14001C1B,
    PropertyType::LayoutMinimumOutlineWidth.vx_disc() == 0x14001CEC,
    PropertyType::LayoutOutlineReservedWidth.vx_disc() == 0x14001CDB,
    PropertyType::LayoutResolveChildCollisions.vx_disc() == 0x08001CDC,
    PropertyType::LayoutTightAlignment.vx_disc() == 0x08001CFF,
    PropertyType::LayoutTightLayout.vx_disc() == 0x08001C00,
    PropertyType::ListFont.vx_disc() == 0x1C001C52,
    PropertyType::ListMsaaIndex.vx_disc() == 0x10001D0E,
    PropertyType::ListNodes.vx_disc() == 0x24001C26,
    PropertyType::ListRestart.vx_disc() == 0x14001CB7,
    PropertyType::ListSpacingMu.vx_disc() == 0x14001CCB,
    PropertyType::MathFormatting.vx_disc() == 0x08003401,
    PropertyType::MetaDataObjectsAboveGraphSpace.vx_disc() == 0x24003442,
    PropertyType::NextStyle.vx_disc() == 0x1C00348A,
    PropertyType::NoteTagCompleted.vx_disc() == 0x1400346F,
    PropertyType::NoteTagCreated.vx_disc() == 0x1400346E,
    PropertyType::NoteTagDefinitionOid.vx_disc() == 0x20003488,
    PropertyType::NoteTagHighlightColor.vx_disc() == 0x14003465,
    PropertyType::NoteTagLabel.vx_disc() == 0x1C003468,
    PropertyType::NoteTagPropertyStatus.vx_disc() == 0x14003467,
    PropertyType::NoteTagShape.vx_disc() == 0x10003464,
    PropertyType::NoteTagStates.vx_disc() == 0x04003489,
    PropertyType::NoteTagTextColor.vx_disc() == 0x14003466,
    PropertyType::NotebookManagementEntityGuid.vx_disc() == 0x1C001C30,
    PropertyType::NumberListFormat.vx_disc() == 0x1C001C1A,
    PropertyType::OffsetFromParentHoriz.vx_disc() == 0x14001C14,
    PropertyType::OffsetFromParentVert.vx_disc() == 0x14001C15,
    PropertyType::OutlineElementChildLevel.vx_disc() == 0x0C001C03,
    PropertyType::OutlineElementRtl.vx_disc() == 0x08001C34,
    PropertyType::PageHeight.vx_disc() == 0x14001C02,
    PropertyType::PageLevel.vx_disc() == 0x14001DFF,
    PropertyType::PageMarginBottom.vx_disc() == 0x14001C4D,
    PropertyType::PageMarginLeft.vx_disc() == 0x14001C4E,
    PropertyType::PageMarginOriginX.vx_disc() == 0x14001D0F,
    PropertyType::PageMarginOriginY.vx_disc() == 0x14001D10,
    PropertyType::PageMarginRight.vx_disc() == 0x14001C4F,
    PropertyType::PageMarginTop.vx_disc() == 0x14001C4C,
    PropertyType::PageSize.vx_disc() == 0x14001C8B,
    PropertyType::PageWidth.vx_disc() == 0x14001C01,
    PropertyType::ParagraphAlignment.vx_disc() == 0x0C003477,
    PropertyType::ParagraphLineSpacingExact.vx_disc() == 0x14003430,
    PropertyType::ParagraphSpaceAfter.vx_disc() == 0x1400342F,
    PropertyType::ParagraphSpaceBefore.vx_disc() == 0x1400342E,
    PropertyType::ParagraphStyle.vx_disc() == 0x2000342C,
    PropertyType::ParagraphStyleId.vx_disc() == 0x1C00345A,
    PropertyType::PictureContainer.vx_disc() == 0x20001C3F,
    PropertyType::PictureHeight.vx_disc() == 0x140034CE,
    PropertyType::PictureWidth.vx_disc() == 0x140034CD,
    PropertyType::PortraitPage.vx_disc() == 0x08001C8E,
    PropertyType::ReadingOrderRtl.vx_disc() == 0x08003476,
    PropertyType::RgOutlineIndentDistance.vx_disc() == 0x1C001C12,
    PropertyType::RichEditTextLangId.vx_disc() == 0x10001CFE,
    PropertyType::RichEditTextUnicode.vx_disc() == 0x1C001C22,
    PropertyType::RowCount.vx_disc() == 0x14001D57,
    PropertyType::SchemaRevisionInOrderToRead.vx_disc() == 0x14001D82,
    PropertyType::SchemaRevisionInOrderToWrite.vx_disc() == 0x1400348B,
    PropertyType::SectionDisplayName.vx_disc() == 0x1C00349B,
    PropertyType::SourceFilepath.vx_disc() == 0x1C001D9D,
    PropertyType::Strikethrough.vx_disc() == 0x08001C07,
    PropertyType::StructureElementChildNodes.vx_disc() == 0x24001D5F,
    PropertyType::Subscript.vx_disc() == 0x08001C09,
    PropertyType::Superscript.vx_disc() == 0x08001C08,
    PropertyType::TableBordersVisible.vx_disc() == 0x08001D5E,
    PropertyType::TableColumnWidths.vx_disc() == 0x1C001D66,
    PropertyType::TableColumnsLocked.vx_disc() == 0x1C001D7D,
    PropertyType::TaskTagDueDat.vx_disc() == 0x1400346B,
    PropertyType::TextExtendedAscii.vx_disc() == 0x1C003498,
    PropertyType::TextRunData.vx_disc() == 0x40003499,
    PropertyType::TextRunDataObject.vx_disc() == 0x24003458,
    PropertyType::TextRunFormatting.vx_disc() == 0x24001E13,
    PropertyType::TextRunIndex.vx_disc() == 0x1C001E12,
    PropertyType::TextRunIsEmbeddedObject.vx_disc() == 0x08001E22,
    PropertyType::TopologyCreationTimeStamp.vx_disc() == 0x18001C65,
    PropertyType::Underline.vx_disc() == 0x08001C06,
    PropertyType::UnderlineType.vx_disc() == 0x0C001E15,
    PropertyType::VersionHistoryGraphSpaceContextNodes.vx_disc() == 0x3400347B,
    PropertyType::WebPictureContainer14.vx_disc() == 0x200034C8,
    PropertyType::WzHyperlinkUrl.vx_disc() == 0x1C001E20,
    PropertyType::TocChildren.vx_disc() == 0x24001CF6,
    PropertyType::FolderChildFilename.vx_disc() == 0x1C001D6B,
    PropertyType::NotebookElementOrderingId.vx_disc() == 0x14001CB9,
    PropertyType::PictureFileExtension.vx_disc() == 0x24003424,
    PropertyType::NoteTags.vx_disc() == 0x40003489,
    PropertyType::NoteTag.vx_disc() == 0x44000811,
    PropertyType::SectionColor.vx_disc() == 0x14001CBE,
    PropertyType::CellBackgroundColor.vx_disc() == 0x14001E26,
    PropertyType::InkBias.vx_disc() == 0x0C00341C,
    PropertyType::InkData.vx_disc() == 0x20003415,
    PropertyType::InkDimensions.vx_disc() == 0x1C00340A,
    PropertyType::InkPath.vx_disc() == 0x1C00340B,
    PropertyType::InkStrokeProperties.vx_disc() == 0x20003409,
    PropertyType::InkStrokes.vx_disc() == 0x24003416,
    PropertyType::InkAntialised.vx_disc() == 0x8000340E,
    PropertyType::InkFitToCurve.vx_disc() == 0x80003410,
    PropertyType::InkIgnorePressure.vx_disc() == 0x08003411,
    PropertyType::InkPenTip.vx_disc() == 0x0C003412,
    PropertyType::InkRasterOperation.vx_disc() == 0x0C003413,
    PropertyType::InkTransparency.vx_disc() == 0x0C003414,
    PropertyType::InkHeight.vx_disc() == 0x1400340C,
    PropertyType::InkWidth.vx_disc() == 0x1400340D,
    PropertyType::InkColor.vx_disc() == 0x1400340F,
    PropertyType::InkScalingX.vx_disc() == 0x14001C46,
    PropertyType::InkScalingY.vx_disc() == 0x14001C47,
    PropertyType::InkBoundingBox.vx_disc() == 0x1C003418,
    PropertyType::EmbeddedObjectType.vx_disc() == 0x14003457,
    PropertyType::EmbeddedInkStartX.vx_disc() == 0x1400349E,
    PropertyType::EmbeddedInkStartY.vx_disc() == 0x1400349F,
    PropertyType::EmbeddedInkWidth.vx_disc() == 0x140034A0,
    PropertyType::EmbeddedInkHeight.vx_disc() == 0x140034A1,
    PropertyType::EmbeddedInkOffsetHoriz.vx_disc() == 0x140034A2,
    PropertyType::EmbeddedInkOffsetVert.vx_disc() == 0x140034A3,
    PropertyType::EmbeddedInkSpaceWidth.vx_disc() == 0x14001C27,
    PropertyType::EmbeddedInkSpaceHeight.vx_disc() == 0x14001C28,
    PropertyType::ImageEmbedType.vx_disc() == 0x140035F2,
    PropertyType::ImageEmbeddedUrl.vx_disc() == 0x1C0035F3,
    PropertyType::MathInlineObjectType.vx_disc() == 0x1400344F,
    PropertyType::MathInlineObjectCount.vx_disc() == 0x14003450,
    PropertyType::MathInlineObjectCol.vx_disc() == 0x0C003451,
    PropertyType::MathInlineObjectAlign.vx_disc() == 0x0C003452,
    PropertyType::MathInlineObjectChar.vx_disc() == 0x10003453,
    PropertyType::MathInlineObjectChar1.vx_disc() == 0x10003454,
    PropertyType::MathInlineObjectChar2.vx_disc() == 0x10003455,
{}
