//! Property and object type numbers of [MS-ONE] (transcribed once, checked by hand).
#![allow(non_upper_case_globals, dead_code)]
pub mod p {
    pub const ActionItemSchemaVersion: u32 = 0x0C003473;
    pub const ActionItemStatus: u32 = 0x10003470;
    pub const ActionItemType: u32 = 0x10003463;
    pub const Author: u32 = 0x1C001D75;
    pub const AuthorMostRecent: u32 = 0x20001D79;
    pub const AuthorOriginal: u32 = 0x20001D78;
    pub const BodyTextAlignment: u32 = 0x0C001C13;
    pub const Bold: u32 = 0x08001C04;
    pub const CachedTitleString: u32 = 0x1C001CF3;
    pub const CachedTitleStringFromPage: u32 = 0x1C001D3C;
    pub const CannotBeSelected: u32 = 0x08001CB2;
    pub const Charset: u32 = 0x0C001D01;
    pub const ChildGraphSpaceElementNodes: u32 = 0x2C001D63;
    pub const ColumnCount: u32 = 0x14001D58;
    pub const ConflictingUserName: u32 = 0x1C001D9E;
    pub const ContentChildNodes: u32 = 0x24001C1F;
    pub const CreationTimeStamp: u32 = 0x14001D09;
    pub const Deletable: u32 = 0x08001D0C;
    pub const DescendantsCannotBeMoved: u32 = 0x08001CF9;
    pub const DisplayedPageNumber: u32 = 0x14003480;
    pub const EditRootRtl: u32 = 0x08001C92;
    pub const ElementChildNodes: u32 = 0x24001C20;
    pub const EmbeddedFileContainer: u32 = 0x20001D9B;
    pub const EmbeddedFileName: u32 = 0x1C001D9C;
    pub const EnableHistory: u32 = 0x08001E1E;
    pub const EnforceOutlineStructure: u32 = 0x08001C91;
    pub const FileAncestorIdentityGuid: u32 = 0x1C001D95;
    pub const FileIdentityGuid: u32 = 0x1C001D94;
    pub const FileLastCodeVersionThatWroteToIt: u32 = 0x14001D99;
    pub const FileNameCrc: u32 = 0x14001D93;
    pub const Font: u32 = 0x1C001C0A;
    pub const FontColor: u32 = 0x14001C0C;
    pub const FontSize: u32 = 0x10001C0B;
    pub const HasVersionPages: u32 = 0x08003462;
    pub const Hidden: u32 = 0x08001E16;
    pub const Highlight: u32 = 0x14001C0D;
    pub const Hyperlink: u32 = 0x08001E14;
    pub const HyperlinkProtected: u32 = 0x08001E19;
    pub const IRecordMedia: u32 = 0x14001D24;
    pub const ImageAltText: u32 = 0x1C001E58;
    pub const ImageFilename: u32 = 0x1C001DD7;
    pub const ImageUploadState: u32 = 0x140034CB;
    pub const IsBackground: u32 = 0x08001D13;
    pub const IsBoilerText: u32 = 0x08001C88;
    pub const IsConflictObjectForRender: u32 = 0x08001D96;
    pub const IsConflictObjectForSelection: u32 = 0x08001DDB;
    pub const IsConflictPage: u32 = 0x08001D7C;
    pub const IsDeletedGraphSpaceContent: u32 = 0x00001DE9;
    pub const IsLayoutSizeSetByUser: u32 = 0x08001CBD;
    pub const IsReadOnly: u32 = 0x08001CDE;
    pub const IsTitleDate: u32 = 0x08001CB5;
    pub const IsTitleText: u32 = 0x08001CB4;
    pub const IsTitleTime: u32 = 0x08001C87;
    pub const Italic: u32 = 0x08001C05;
    pub const LanguageId: u32 = 0x14001C3B;
    pub const LastModifiedTime: u32 = 0x14001D7A;
    pub const LastModifiedTimeStamp: u32 = 0x18001D77;
    pub const LayoutAlignmentInParent: u32 = 0x14001C3E;
    pub const LayoutAlignmentSelf: u32 = 0x14001C84;
    pub const LayoutCollisionPriority: u32 = 0x14001CF1;
    pub const LayoutMaxHeight: u32 = 0x14001C1C;
    pub const LayoutMaxWidth: u32 = 0x14001C1B;
    pub const LayoutMinimumOutlineWidth: u32 = 0x14001CEC;
    pub const LayoutOutlineReservedWidth: u32 = 0x14001CDB;
    pub const LayoutResolveChildCollisions: u32 = 0x08001CDC;
    pub const LayoutTightAlignment: u32 = 0x08001CFF;
    pub const LayoutTightLayout: u32 = 0x08001C00;
    pub const ListFont: u32 = 0x1C001C52;
    pub const ListMsaaIndex: u32 = 0x10001D0E;
    pub const ListNodes: u32 = 0x24001C26;
    pub const ListRestart: u32 = 0x14001CB7;
    pub const ListSpacingMu: u32 = 0x14001CCB;
    pub const MathFormatting: u32 = 0x08003401;
    pub const MetaDataObjectsAboveGraphSpace: u32 = 0x24003442;
    pub const NextStyle: u32 = 0x1C00348A;
    pub const NoteTagCompleted: u32 = 0x1400346F;
    pub const NoteTagCreated: u32 = 0x1400346E;
    pub const NoteTagDefinitionOid: u32 = 0x20003488;
    pub const NoteTagHighlightColor: u32 = 0x14003465;
    pub const NoteTagLabel: u32 = 0x1C003468;
    pub const NoteTagPropertyStatus: u32 = 0x14003467;
    pub const NoteTagShape: u32 = 0x10003464;
    pub const NoteTagStates: u32 = 0x04003489;
    pub const NoteTagTextColor: u32 = 0x14003466;
    pub const NotebookManagementEntityGuid: u32 = 0x1C001C30;
    pub const NumberListFormat: u32 = 0x1C001C1A;
    pub const OffsetFromParentHoriz: u32 = 0x14001C14;
    pub const OffsetFromParentVert: u32 = 0x14001C15;
    pub const OutlineElementChildLevel: u32 = 0x0C001C03;
    pub const OutlineElementRtl: u32 = 0x08001C34;
    pub const PageHeight: u32 = 0x14001C02;
    pub const PageLevel: u32 = 0x14001DFF;
    pub const PageMarginBottom: u32 = 0x14001C4D;
    pub const PageMarginLeft: u32 = 0x14001C4E;
    pub const PageMarginOriginX: u32 = 0x14001D0F;
    pub const PageMarginOriginY: u32 = 0x14001D10;
    pub const PageMarginRight: u32 = 0x14001C4F;
    pub const PageMarginTop: u32 = 0x14001C4C;
    pub const PageSize: u32 = 0x14001C8B;
    pub const PageWidth: u32 = 0x14001C01;
    pub const ParagraphAlignment: u32 = 0x0C003477;
    pub const ParagraphLineSpacingExact: u32 = 0x14003430;
    pub const ParagraphSpaceAfter: u32 = 0x1400342F;
    pub const ParagraphSpaceBefore: u32 = 0x1400342E;
    pub const ParagraphStyle: u32 = 0x2000342C;
    pub const ParagraphStyleId: u32 = 0x1C00345A;
    pub const PictureContainer: u32 = 0x20001C3F;
    pub const PictureHeight: u32 = 0x140034CE;
    pub const PictureWidth: u32 = 0x140034CD;
    pub const PortraitPage: u32 = 0x08001C8E;
    pub const ReadingOrderRtl: u32 = 0x08003476;
    pub const RgOutlineIndentDistance: u32 = 0x1C001C12;
    pub const RichEditTextLangId: u32 = 0x10001CFE;
    pub const RichEditTextUnicode: u32 = 0x1C001C22;
    pub const RowCount: u32 = 0x14001D57;
    pub const SchemaRevisionInOrderToRead: u32 = 0x14001D82;
    pub const SchemaRevisionInOrderToWrite: u32 = 0x1400348B;
    pub const SectionDisplayName: u32 = 0x1C00349B;
    pub const SourceFilepath: u32 = 0x1C001D9D;
    pub const Strikethrough: u32 = 0x08001C07;
    pub const StructureElementChildNodes: u32 = 0x24001D5F;
    pub const Subscript: u32 = 0x08001C09;
    pub const Superscript: u32 = 0x08001C08;
    pub const TableBordersVisible: u32 = 0x08001D5E;
    pub const TableColumnWidths: u32 = 0x1C001D66;
    pub const TableColumnsLocked: u32 = 0x1C001D7D;
    pub const TaskTagDueDat: u32 = 0x1400346B;
    pub const TextExtendedAscii: u32 = 0x1C003498;
    pub const TextRunData: u32 = 0x40003499;
    pub const TextRunDataObject: u32 = 0x24003458;
    pub const TextRunFormatting: u32 = 0x24001E13;
    pub const TextRunIndex: u32 = 0x1C001E12;
    pub const TextRunIsEmbeddedObject: u32 = 0x08001E22;
    pub const TopologyCreationTimeStamp: u32 = 0x18001C65;
    pub const Underline: u32 = 0x08001C06;
    pub const UnderlineType: u32 = 0x0C001E15;
    pub const VersionHistoryGraphSpaceContextNodes: u32 = 0x3400347B;
    pub const WebPictureContainer14: u32 = 0x200034C8;
    pub const WzHyperlinkUrl: u32 = 0x1C001E20;
    pub const TocChildren: u32 = 0x24001CF6;
    pub const FolderChildFilename: u32 = 0x1C001D6B;
    pub const NotebookElementOrderingId: u32 = 0x14001CB9;
    pub const PictureFileExtension: u32 = 0x24003424;
    pub const NoteTags: u32 = 0x40003489;
    pub const NoteTag: u32 = 0x44000811;
    pub const SectionColor: u32 = 0x14001CBE;
    pub const CellBackgroundColor: u32 = 0x14001E26;
    pub const InkBias: u32 = 0x0C00341C;
    pub const InkData: u32 = 0x20003415;
    pub const InkDimensions: u32 = 0x1C00340A;
    pub const InkPath: u32 = 0x1C00340B;
    pub const InkStrokeProperties: u32 = 0x20003409;
    pub const InkStrokes: u32 = 0x24003416;
    pub const InkAntialised: u32 = 0x8000340E;
    pub const InkFitToCurve: u32 = 0x80003410;
    pub const InkIgnorePressure: u32 = 0x08003411;
    pub const InkPenTip: u32 = 0x0C003412;
    pub const InkRasterOperation: u32 = 0x0C003413;
    pub const InkTransparency: u32 = 0x0C003414;
    pub const InkHeight: u32 = 0x1400340C;
    pub const InkWidth: u32 = 0x1400340D;
    pub const InkColor: u32 = 0x1400340F;
    pub const InkScalingX: u32 = 0x14001C46;
    pub const InkScalingY: u32 = 0x14001C47;
    pub const InkBoundingBox: u32 = 0x1C003418;
    pub const EmbeddedObjectType: u32 = 0x14003457;
    pub const EmbeddedInkStartX: u32 = 0x1400349E;
    pub const EmbeddedInkStartY: u32 = 0x1400349F;
    pub const EmbeddedInkWidth: u32 = 0x140034A0;
    pub const EmbeddedInkHeight: u32 = 0x140034A1;
    pub const EmbeddedInkOffsetHoriz: u32 = 0x140034A2;
    pub const EmbeddedInkOffsetVert: u32 = 0x140034A3;
    pub const EmbeddedInkSpaceWidth: u32 = 0x14001C27;
    pub const EmbeddedInkSpaceHeight: u32 = 0x14001C28;
    pub const ImageEmbedType: u32 = 0x140035F2;
    pub const ImageEmbeddedUrl: u32 = 0x1C0035F3;
    pub const MathInlineObjectType: u32 = 0x1400344F;
    pub const MathInlineObjectCount: u32 = 0x14003450;
    pub const MathInlineObjectCol: u32 = 0x0C003451;
    pub const MathInlineObjectAlign: u32 = 0x0C003452;
    pub const MathInlineObjectChar: u32 = 0x10003453;
    pub const MathInlineObjectChar1: u32 = 0x10003454;
    pub const MathInlineObjectChar2: u32 = 0x10003455;
    pub const ALL: &[u32] = &[ActionItemSchemaVersion, ActionItemStatus, ActionItemType, Author, AuthorMostRecent, AuthorOriginal, BodyTextAlignment, Bold, CachedTitleString, CachedTitleStringFromPage, CannotBeSelected, Charset, ChildGraphSpaceElementNodes, ColumnCount, ConflictingUserName, ContentChildNodes, CreationTimeStamp, Deletable, DescendantsCannotBeMoved, DisplayedPageNumber, EditRootRtl, ElementChildNodes, EmbeddedFileContainer, EmbeddedFileName, EnableHistory, EnforceOutlineStructure, FileAncestorIdentityGuid, FileIdentityGuid, FileLastCodeVersionThatWroteToIt, FileNameCrc, Font, FontColor, FontSize, HasVersionPages, Hidden, Highlight, Hyperlink, HyperlinkProtected, IRecordMedia, ImageAltText, ImageFilename, ImageUploadState, IsBackground, IsBoilerText, IsConflictObjectForRender, IsConflictObjectForSelection, IsConflictPage, IsDeletedGraphSpaceContent, IsLayoutSizeSetByUser, IsReadOnly, IsTitleDate, IsTitleText, IsTitleTime, Italic, LanguageId, LastModifiedTime, LastModifiedTimeStamp, LayoutAlignmentInParent, LayoutAlignmentSelf, LayoutCollisionPriority, LayoutMaxHeight, LayoutMaxWidth, LayoutMinimumOutlineWidth, LayoutOutlineReservedWidth, LayoutResolveChildCollisions, LayoutTightAlignment, LayoutTightLayout, ListFont, ListMsaaIndex, ListNodes, ListRestart, ListSpacingMu, MathFormatting, MetaDataObjectsAboveGraphSpace, NextStyle, NoteTagCompleted, NoteTagCreated, NoteTagDefinitionOid, NoteTagHighlightColor, NoteTagLabel, NoteTagPropertyStatus, NoteTagShape, NoteTagStates, NoteTagTextColor, NotebookManagementEntityGuid, NumberListFormat, OffsetFromParentHoriz, OffsetFromParentVert, OutlineElementChildLevel, OutlineElementRtl, PageHeight, PageLevel, PageMarginBottom, PageMarginLeft, PageMarginOriginX, PageMarginOriginY, PageMarginRight, PageMarginTop, PageSize, PageWidth, ParagraphAlignment, ParagraphLineSpacingExact, ParagraphSpaceAfter, ParagraphSpaceBefore, ParagraphStyle, ParagraphStyleId, PictureContainer, PictureHeight, PictureWidth, PortraitPage, ReadingOrderRtl, RgOutlineIndentDistance, RichEditTextLangId, RichEditTextUnicode, RowCount, SchemaRevisionInOrderToRead, SchemaRevisionInOrderToWrite, SectionDisplayName, SourceFilepath, Strikethrough, StructureElementChildNodes, Subscript, Superscript, TableBordersVisible, TableColumnWidths, TableColumnsLocked, TaskTagDueDat, TextExtendedAscii, TextRunData, TextRunDataObject, TextRunFormatting, TextRunIndex, TextRunIsEmbeddedObject, TopologyCreationTimeStamp, Underline, UnderlineType, VersionHistoryGraphSpaceContextNodes, WebPictureContainer14, WzHyperlinkUrl, TocChildren, FolderChildFilename, NotebookElementOrderingId, PictureFileExtension, NoteTags, NoteTag, SectionColor, CellBackgroundColor, InkBias, InkData, InkDimensions, InkPath, InkStrokeProperties, InkStrokes, InkAntialised, InkFitToCurve, InkIgnorePressure, InkPenTip, InkRasterOperation, InkTransparency, InkHeight, InkWidth, InkColor, InkScalingX, InkScalingY, InkBoundingBox, EmbeddedObjectType, EmbeddedInkStartX, EmbeddedInkStartY, EmbeddedInkWidth, EmbeddedInkHeight, EmbeddedInkOffsetHoriz, EmbeddedInkOffsetVert, EmbeddedInkSpaceWidth, EmbeddedInkSpaceHeight, ImageEmbedType, ImageEmbeddedUrl, MathInlineObjectType, MathInlineObjectCount, MathInlineObjectCol, MathInlineObjectAlign, MathInlineObjectChar, MathInlineObjectChar1, MathInlineObjectChar2];
}
pub mod jc {
    pub const AuthorContainer: u32 = 0x00120001;
    pub const EmbeddedFileContainer: u32 = 0x00080036;
    pub const EmbeddedFileNode: u32 = 0x00060035;
    pub const ImageNode: u32 = 0x00060011;
    pub const NoteTagSharedDefinitionContainer: u32 = 0x00120043;
    pub const NumberListNode: u32 = 0x00060012;
    pub const OutlineElementNode: u32 = 0x0006000D;
    pub const OutlineGroup: u32 = 0x00060019;
    pub const OutlineNode: u32 = 0x0006000C;
    pub const PageManifestNode: u32 = 0x00060037;
    pub const PageMetadata: u32 = 0x00020030;
    pub const PageNode: u32 = 0x0006000B;
    pub const PageSeriesNode: u32 = 0x00060008;
    pub const ParagraphStyleObject: u32 = 0x0012004D;
    pub const PictureContainer: u32 = 0x00080039;
    pub const RevisionMetadata: u32 = 0x00020044;
    pub const RichTextNode: u32 = 0x0006000E;
    pub const SectionMetadata: u32 = 0x00020031;
    pub const SectionNode: u32 = 0x00060007;
    pub const TableCellNode: u32 = 0x00060024;
    pub const TableNode: u32 = 0x00060022;
    pub const TableRowNode: u32 = 0x00060023;
    pub const TitleNode: u32 = 0x0006002C;
    pub const TocContainer: u32 = 0x00020001;
    pub const XpsContainer: u32 = 0x0008003A;
    pub const InkContainer: u32 = 0x00060014;
    pub const InkDataNode: u32 = 0x0002003B;
    pub const InkStrokeNode: u32 = 0x00020047;
    pub const StrokePropertiesNode: u32 = 0x00120048;
    pub const IFrameNode: u32 = 0x00060058;
    pub const ALL: &[u32] = &[AuthorContainer, EmbeddedFileContainer, EmbeddedFileNode, ImageNode, NoteTagSharedDefinitionContainer, NumberListNode, OutlineElementNode, OutlineGroup, OutlineNode, PageManifestNode, PageMetadata, PageNode, PageSeriesNode, ParagraphStyleObject, PictureContainer, RevisionMetadata, RichTextNode, SectionMetadata, SectionNode, TableCellNode, TableNode, TableRowNode, TitleNode, TocContainer, XpsContainer, InkContainer, InkDataNode, InkStrokeNode, StrokePropertiesNode, IFrameNode];
}
pub const SHAPES: &[&str] = &["NoIcon", "GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox", "YellowStarCheckBox", "BlueStarCheckBox", "GreenExclamationCheckBox", "YellowExclamationCheckBox", "BlueExclamationCheckBox", "GreenRightArrowCheckBox", "YellowRightArrowCheckBox", "BlueRightArrowCheckBox", "YellowStar", "BlueFollowUpFlag", "QuestionMark", "BlueRightArrow", "HighPriority", "ContactInformation", "Meeting", "TimeSensitive", "LightBulb", "Pushpin", "Home", "CommentBubble", "SmilingFace", "AwardRibbon", "YellowKey", "BlueCheckBox1", "BlueCircle1", "BlueCheckBox2", "BlueCircle2", "BlueCheckBox3", "BlueCircle3", "BlueEightPointStar", "BlueCheckMark", "BlueCircle", "BlueDownArrow", "BlueLeftArrow", "BlueSolidTarget", "BlueStar", "BlueSun", "BlueTarget", "BlueTriangle", "BlueUmbrella", "BlueUpArrow", "BlueXWithDots", "BlueX", "GreenCheckBox1", "GreenCircle1", "GreenCheckBox2", "GreenCircle2", "GreenCheckBox3", "GreenCircle3", "GreenEightPointStar", "GreenCheckMark", "GreenCircle", "GreenDownArrow", "GreenLeftArrow", "GreenRightArrow", "GreenSolidArrow", "GreenStar", "GreenSun", "GreenTarget", "GreenTriangle", "GreenUmbrella", "GreenUpArrow", "GreenXWithDots", "GreenX", "YellowCheckBox1", "YellowCircle1", "YellowCheckBox2", "YellowCircle2", "YellowCheckBox3", "YellowCircle3", "YellowEightPointStar", "YellowCheckMark", "YellowCircle", "YellowDownArrow", "YellowLeftArrow", "YellowRightArrow", "YellowSolidTarget", "YellowSun", "YellowTarget", "YellowTriangle", "YellowUmbrella", "YellowUpArrow", "YellowXWithDots", "YellowX", "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag", "FollowUpNextWeekFlag", "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox", "GreenPersonCheckBox", "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox", "RedSquare", "YellowSquare", "BlueSquare", "GreenSquare", "OrangeSquare", "PinkSquare", "EMailMessage", "ClosedEnvelope", "OpenEnvelope", "MobilePhone", "TelephoneWithClock", "QuestionBalloon", "PaperClip", "FrowningFace", "InstantMessagingContactPerson", "PersonWithExclamationMark", "TwoPeople", "ReminderBell", "Contact", "RoseOnAStem", "CalendarDateWithClock", "MusicalNote", "MovieClip", "QuotationMark", "Globe", "HyperlinkGlobe", "Laptop", "Plane", "Car", "Binoculars", "PresentationSlide", "Padlock", "OpenBook", "NotebookWithClock", "BlankPaperWithLines", "Research", "Pen", "DollarSign", "CoinsWithAWindowBackdrop", "ScheduledTask", "LightningBolt", "Cloud", "Heart", "Sunflower"];
pub const CHECKABLE: &[&str] = &["GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox", "YellowStarCheckBox", "BlueStarCheckBox", "GreenExclamationCheckBox", "YellowExclamationCheckBox", "BlueExclamationCheckBox", "GreenRightArrowCheckBox", "YellowRightArrowCheckBox", "BlueRightArrowCheckBox", "BlueCheckBox1", "BlueCheckBox2", "BlueCheckBox3", "GreenCheckBox1", "GreenCheckBox2", "GreenCheckBox3", "YellowCheckBox1", "YellowCheckBox2", "YellowCheckBox3", "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag", "FollowUpNextWeekFlag", "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox", "GreenPersonCheckBox", "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox"];
