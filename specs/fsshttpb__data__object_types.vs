#prelude
/// the codes the formats define
pub proof fn pin_ObjectType() ensures
    ObjectType::CellManifest.vx_disc() == 0x0B,
    ObjectType::DataElement.vx_disc() == 0x01,
    ObjectType::DataElementFragment.vx_disc() == 0x06A,
    ObjectType::DataElementPackage.vx_disc() == 0x15,
    ObjectType::ObjectDataBlob.vx_disc() == 0x02,
    ObjectType::ObjectGroupBlobReference.vx_disc() == 0x1C,
    ObjectType::ObjectGroupData.vx_disc() == 0x1E,
    ObjectType::ObjectGroupDataBlob.vx_disc() == 0x05,
    ObjectType::ObjectGroupDataExcluded.vx_disc() == 0x03,
    ObjectType::ObjectGroupDataObject.vx_disc() == 0x16,
    ObjectType::ObjectGroupDeclaration.vx_disc() == 0x1D,
    ObjectType::ObjectGroupMetadata.vx_disc() == 0x078,
    ObjectType::ObjectGroupMetadataBlock.vx_disc() == 0x79,
    ObjectType::ObjectGroupObject.vx_disc() == 0x18,
    ObjectType::OneNotePackaging.vx_disc() == 0x7a,
    ObjectType::RevisionManifest.vx_disc() == 0x1A,
    ObjectType::RevisionManifestGroupReference.vx_disc() == 0x19,
    ObjectType::RevisionManifestRoot.vx_disc() == 0x0A,
    ObjectType::StorageIndexCellMapping.vx_disc() == 0x0E,
    ObjectType::StorageIndexManifestMapping.vx_disc() == 0x11,
    ObjectType::StorageIndexRevisionMapping.vx_disc() == 0x0D,
    ObjectType::StorageManifest.vx_disc() == 0x0C,
    ObjectType::StorageManifestRoot.vx_disc() == 0x07,
{}
