// Generated by tools/gen_types.py; do not edit.
#![allow(clippy::all)]
use dxf::entities::*;
use dxf::objects::*;
/// name, type strings in a file, first and last version, default instance
pub static ENT: &[(&str, &[&str], u32, u32, fn() -> EntityType)] = &[
    ("Face3D", &["3DFACE"], 0, 20, || EntityType::Face3D(Default::default())),
    ("Solid3D", &["3DSOLID"], 13, 20, || EntityType::Solid3D(Default::default())),
    ("ProxyEntity", &["ACAD_PROXY_ENTITY"], 14, 20, || EntityType::ProxyEntity(Default::default())),
    ("Arc", &["ARC"], 0, 20, || EntityType::Arc(Default::default())),
    ("ArcAlignedText", &["ARCALIGNEDTEXT"], 15, 15, || EntityType::ArcAlignedText(Default::default())),
    ("AttributeDefinition", &["ATTDEF"], 0, 20, || EntityType::AttributeDefinition(Default::default())),
    ("Attribute", &["ATTRIB"], 0, 20, || EntityType::Attribute(Default::default())),
    ("Body", &["BODY"], 13, 20, || EntityType::Body(Default::default())),
    ("Circle", &["CIRCLE"], 0, 20, || EntityType::Circle(Default::default())),
    ("RotatedDimension", &["DIMENSION"], 0, 20, || EntityType::RotatedDimension(Default::default())),
    ("RadialDimension", &["DIMENSION"], 0, 20, || EntityType::RadialDimension(Default::default())),
    ("DiameterDimension", &["DIMENSION"], 0, 20, || EntityType::DiameterDimension(Default::default())),
    ("AngularThreePointDimension", &["DIMENSION"], 0, 20, || EntityType::AngularThreePointDimension(Default::default())),
    ("OrdinateDimension", &["DIMENSION"], 0, 20, || EntityType::OrdinateDimension(Default::default())),
    ("Ellipse", &["ELLIPSE"], 13, 20, || EntityType::Ellipse(Default::default())),
    ("Helix", &["HELIX"], 17, 20, || EntityType::Helix(Default::default())),
    ("Image", &["IMAGE"], 14, 20, || EntityType::Image(Default::default())),
    ("Insert", &["INSERT"], 0, 20, || EntityType::Insert(Default::default())),
    ("Leader", &["LEADER"], 13, 20, || EntityType::Leader(Default::default())),
    ("Light", &["LIGHT"], 17, 20, || EntityType::Light(Default::default())),
    ("Line", &["LINE", "3DLINE"], 0, 20, || EntityType::Line(Default::default())),
    ("LwPolyline", &["LWPOLYLINE"], 14, 20, || EntityType::LwPolyline(Default::default())),
    ("MLine", &["MLINE"], 13, 20, || EntityType::MLine(Default::default())),
    ("MText", &["MTEXT"], 13, 20, || EntityType::MText(Default::default())),
    ("OleFrame", &["OLEFRAME"], 13, 20, || EntityType::OleFrame(Default::default())),
    ("Ole2Frame", &["OLE2FRAME"], 14, 20, || EntityType::Ole2Frame(Default::default())),
    ("ModelPoint", &["POINT"], 0, 20, || EntityType::ModelPoint(Default::default())),
    ("Polyline", &["POLYLINE"], 0, 20, || EntityType::Polyline(Default::default())),
    ("Ray", &["RAY"], 13, 20, || EntityType::Ray(Default::default())),
    ("Region", &["REGION"], 13, 20, || EntityType::Region(Default::default())),
    ("RText", &["RTEXT"], 15, 15, || EntityType::RText(Default::default())),
    ("Section", &["SECTION"], 17, 20, || EntityType::Section(Default::default())),
    ("Seqend", &["SEQEND"], 0, 20, || EntityType::Seqend(Default::default())),
    ("Shape", &["SHAPE"], 0, 20, || EntityType::Shape(Default::default())),
    ("Solid", &["SOLID"], 0, 20, || EntityType::Solid(Default::default())),
    ("Spline", &["SPLINE"], 13, 20, || EntityType::Spline(Default::default())),
    ("Text", &["TEXT"], 0, 20, || EntityType::Text(Default::default())),
    ("Tolerance", &["TOLERANCE"], 13, 20, || EntityType::Tolerance(Default::default())),
    ("Trace", &["TRACE"], 0, 20, || EntityType::Trace(Default::default())),
    ("DgnUnderlay", &["DGNUNDERLAY"], 17, 20, || EntityType::DgnUnderlay(Default::default())),
    ("DwfUnderlay", &["DWFUNDERLAY"], 17, 20, || EntityType::DwfUnderlay(Default::default())),
    ("PdfUnderlay", &["PDFUNDERLAY"], 17, 20, || EntityType::PdfUnderlay(Default::default())),
    ("Vertex", &["VERTEX"], 0, 20, || EntityType::Vertex(Default::default())),
    ("Wipeout", &["WIPEOUT"], 15, 20, || EntityType::Wipeout(Default::default())),
    ("XLine", &["XLINE"], 13, 20, || EntityType::XLine(Default::default())),
];
pub static OBJ: &[(&str, &[&str], u32, u32, fn() -> ObjectType)] = &[
    ("AcadProxyObject", &["ACAD_PROXY_OBJECT"], 15, 20, || ObjectType::AcadProxyObject(Default::default())),
    ("DictionaryWithDefault", &["ACDBDICTIONARYWDFLT"], 15, 20, || ObjectType::DictionaryWithDefault(Default::default())),
    ("PlaceHolder", &["ACDBPLACEHOLDER"], 15, 20, || ObjectType::PlaceHolder(Default::default())),
    ("NavisWorksModelDefinition", &["AcDbNavisworksModelDef"], 20, 20, || ObjectType::NavisWorksModelDefinition(Default::default())),
    ("DataTable", &["DATATABLE"], 17, 20, || ObjectType::DataTable(Default::default())),
    ("Dictionary", &["DICTIONARY"], 13, 20, || ObjectType::Dictionary(Default::default())),
    ("DictionaryVariable", &["DICTIONARYVAR"], 13, 20, || ObjectType::DictionaryVariable(Default::default())),
    ("DimensionAssoc", &["DIMASSOC"], 16, 20, || ObjectType::DimensionAssoc(Default::default())),
    ("Field", &["FIELD"], 16, 20, || ObjectType::Field(Default::default())),
    ("GeoData", &["GEODATA"], 18, 20, || ObjectType::GeoData(Default::default())),
    ("Group", &["GROUP"], 13, 20, || ObjectType::Group(Default::default())),
    ("IdBuffer", &["IDBUFFER"], 14, 20, || ObjectType::IdBuffer(Default::default())),
    ("ImageDefinition", &["IMAGEDEF"], 14, 20, || ObjectType::ImageDefinition(Default::default())),
    ("ImageDefinitionReactor", &["IMAGEDEF_REACTOR"], 14, 20, || ObjectType::ImageDefinitionReactor(Default::default())),
    ("LayerFilter", &["LAYER_FILTER"], 16, 20, || ObjectType::LayerFilter(Default::default())),
    ("LayerIndex", &["LAYER_INDEX"], 14, 20, || ObjectType::LayerIndex(Default::default())),
    ("Layout", &["LAYOUT"], 15, 20, || ObjectType::Layout(Default::default())),
    ("LightList", &["LIGHTLIST"], 17, 20, || ObjectType::LightList(Default::default())),
    ("Material", &["MATERIAL"], 16, 20, || ObjectType::Material(Default::default())),
    ("MLeaderStyle", &["MLEADERSTYLE"], 17, 20, || ObjectType::MLeaderStyle(Default::default())),
    ("MLineStyle", &["MLINESTYLE"], 13, 20, || ObjectType::MLineStyle(Default::default())),
    ("ObjectPointer", &["OBJECT_PTR"], 14, 20, || ObjectType::ObjectPointer(Default::default())),
    ("PlotSettings", &["PLOTSETTINGS"], 15, 20, || ObjectType::PlotSettings(Default::default())),
    ("RapidRTRenderEnvironment", &["RAPIDRTRENDERENVIRONMENT"], 20, 20, || ObjectType::RapidRTRenderEnvironment(Default::default())),
    ("RapidRenderSettings", &["RAPIDRTRENDERSETTINGS"], 20, 20, || ObjectType::RapidRenderSettings(Default::default())),
    ("RasterVariables", &["RASTERVARIABLES"], 14, 20, || ObjectType::RasterVariables(Default::default())),
    ("MentalRayRenderSettings", &["MENTALRAYRENDERSETTINGS"], 17, 20, || ObjectType::MentalRayRenderSettings(Default::default())),
    ("RenderEnvironment", &["RENDERENVIRONMENT"], 17, 20, || ObjectType::RenderEnvironment(Default::default())),
    ("RenderGlobal", &["RENDERGLOBAL"], 17, 20, || ObjectType::RenderGlobal(Default::default())),
    ("SectionManager", &["SECTIONMANAGER"], 17, 20, || ObjectType::SectionManager(Default::default())),
    ("SectionSettings", &["SECTIONSETTINGS"], 17, 20, || ObjectType::SectionSettings(Default::default())),
    ("SortentsTable", &["SORTENTSTABLE"], 14, 20, || ObjectType::SortentsTable(Default::default())),
    ("SpatialFilter", &["SPATIAL_FILTER"], 14, 20, || ObjectType::SpatialFilter(Default::default())),
    ("SpatialIndex", &["SPATIAL_INDEX"], 15, 20, || ObjectType::SpatialIndex(Default::default())),
    ("SunStudy", &["SUNSTUDY"], 19, 20, || ObjectType::SunStudy(Default::default())),
    ("TableStyle", &["TABLESTYLE"], 16, 20, || ObjectType::TableStyle(Default::default())),
    ("UnderlayDefinition", &["UNDERLAYDEFINITION"], 17, 20, || ObjectType::UnderlayDefinition(Default::default())),
    ("VbaProject", &["VBA_PROJECT"], 15, 20, || ObjectType::VbaProject(Default::default())),
    ("VisualStyle", &["VISUALSTYLE"], 17, 20, || ObjectType::VisualStyle(Default::default())),
    ("WipeoutVariables", &["WIPEOUTVARIABLES"], 16, 20, || ObjectType::WipeoutVariables(Default::default())),
    ("XRecordObject", &["XRECORD"], 14, 20, || ObjectType::XRecordObject(Default::default())),
];
