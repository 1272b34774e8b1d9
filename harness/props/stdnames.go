package props

import "strings"

// stdKeys are names of entries that dictionaries of PDF documents have; none of them changes what is found below it.
var stdKeys = strings.Fields(`
A AA AC AF AFRelationship AIS AN AP AS AU Action Alt Alternates Alternatives AntiAlias Annots Annotations ArtBox Artifact
Ascent AuthEvent Author AvgWidth B BBox BC BE BG BI BM BPC BS Background Base BaseEncoding BaseFont BaseState Bl BleedBox
Blend Border Bounds Btm ByteRange C C0 C1 CA CF CI CL CO CP CS CT CIDSet CIDSystemInfo CIDToGIDMap CapHeight Category
CenterWindow Cert Changes CharProcs CharSet Chapters Class ClassMap ColSpan Collection Color ColorSpace Colorants Colors
Columns Comments Components Config Configs Contents Coords Count CreationDate Creator CropBox D DA DL DOS DR DS DW DW2 Data
Date Decode DecodeParms DefaultForPrinting Desc Descent DescendantFonts Dest DestOutputProfile Dests Di DigestMethod
Direction DisplayDocTitle Domain DocMDP Duplex Dur E EF EFF EarlyChange EmbeddedFDFs EmbeddedFiles Encode Encoding Event
Export ExtGState Extends ExtensionLevel Extensions Extras F FB FD FDF FFilter FDecodeParms FL FS FT FWPosition Fade Ff
Fields FieldMDP Filter First FirstChar FitWindow Flags Fo Font FontBBox FontDescriptor FontFamily FontFile FontFile2
FontFile3 FontMatrix FontName FontStretch FontWeight Form FormType Frequency Function FunctionType Functions G GTS_PDFX
Group Gamma H HI HT Height Hid HideMenubar I IC ID IDS IDTree IF IRT IT IX Identity Image ImageMask Index Info InkList
Intent Interpolate IsMap Issuer ItalicAngle JS JavaScript JavaScriptActions JobTicket K Keywords Kids L LI LE LL LLE LLO
LW Lab Lang Language LastChar LastModified LastPage Launch Leading Legal Length Length1 Level1 Limits Linearized Link
ListMode ListNumbering Lock Lx M MCID MCR MH MK ML MN Mac MarkInfo Marked Mask Matrix Matte MaxLen MaxWidth Measure
MediaBox Metadata MissingWidth Mix ModDate Movie Msg N NA NM NP NU Name Names NeedAppearances NeedsRendering NewWindow
Next Nums O OB OC OCG OCGs OCProperties OE OFF ON OP OPM OS Obj Off On Open OpenAction Operation Opi Opt Order Ordering
Outlines OutputCondition OutputIntents P PC PI PO PS PV PZ Page PageElement PageLabels PageLayout PageMode Pages PaintType
Params Parent ParentTree ParentTreeNextKey Parts Pattern PatternType Perms Pg PickTrayByPDFSize PieceInfo Placement Popup
Predictor Prepress PresSteps Prev Print PrintArea PrintClip PrintScaling PrintState Private ProcSet Producer Prop_Build
Properties Q QuadPoints R RB RC RD RF RI RL RM RO RT RV RadioLock Range RBGroups Reason Rect Ref Reference Registry
Rename Renditions Requirements ResFork Resources RichMedia Role RoleMap Root Rotate Rows Rules S SA SE SI SM SMask SP SS SV
SW Schema Script Sep SeparationInfo SeparationColorNames Sect Shading ShadingType SigFlags Signature Size Sort Sound
SpiderInfo St StemH StemV StructElem StructParent StructParents StructTreeRoot Style SubFilter SubType Subject Subtype
Supplement Suspects Sy T TA TB TI TK TM TP TR TR2 TS TU Tabs Target TemplateInstantiated Templates Text Thread Threads
Thumb TilingType Timespan Title Top ToUnicode Trans TransformMethod TransformParams TrapNet Trapped TrimBox Type U UC UF
UR3 URI URL URLS URLs Unix Usage UserProperties UserUnit V VE VP Version Vertices View ViewArea ViewClip ViewerPreferences
Volume W W2 WC WMode WP WS Widths Width Win Window XFA XHeight XObject XStep XN X Y YStep Z Zoom
EmbeddedFile Attachments Attachment Files File Default Normal Rollover Down Up Uri Javascript Js Command Commands
a aa next kids x y 0 1 10 A1 Key1 ADBE Adobe Custom PTEX.Fullbanner PDFVersion Im0 F1 Fm0 GS0 Yes Tx Btn Ch`)

// stdTypes are values of Type, Subtype and S entries that documents have.
var stdTypes = strings.Fields(`
3D 3DNode 3DRef 3DView Action Annot BEAD Bead Border CIDFont CIDFontType0 CIDFontType2 CMap Caret Catalog Circle
Collection CollectionField CollectionItem CollectionSchema CryptFilter CryptFilterDecodeParms DeveloperExtensions DocTimeStamp
DPart EmbeddedFile Encoding ExData ExtGState F Filespec FWParams Field FileAttachment Font FontDescriptor FontFile Form
FreeText GoTo GoTo3DView GoToE GoToR Group Halftone Hide Highlight Image ImportData Ink JavaScript JobTicketContents
Jpeg Launch Line Link MCR MMType1 MR MediaClip MediaDuration MediaOffset MediaPlayerInfo Mask Measure MinBitDepth Movie
MarkInfo Named Namespace Navigator NumberFormat OBJR OCG OCMD OPI Outlines OutputIntent PS Page PageLabel Pages Pattern
PolyLine Polygon Popup PrinterMark Projection PtData RL Redact Rendition ReqHandler Requirement ResetForm RichMedia
RichMediaContent Screen SetOCGState Sig SigFieldLock SigRef SlideShow SoftwareIdentifier Solidities Sound SpiderContentSet
Square Squiggly Stamp StrikeOut StructElem StructTreeRoot SubmitForm SV SVCert Template Text Thread TimeSpan Trans
TransformParams TrapNet TrueType Type0 Type1 Type1C Type3 URI Underline User UserProperty Viewport Watermark
Widget Win XML XObject Metadata ObjStm Custom Default OpenType CFF DocInfo Thumb Data text application image xml pdf Text1 adbe.pkcs7.s5 Adobe.PPKLite`)
