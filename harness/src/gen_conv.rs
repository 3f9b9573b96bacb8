// Generated by tools/gen_conv.py; do not edit.
use dxf::enums::*;
use enum_primitive::FromPrimitive;
pub type Conv = (&'static str, fn(i64) -> Option<i64>, &'static [(&'static str, i64)]);
pub static ENUMS: &[Conv] = &[
    ("AngleDirection", |v| AngleDirection::from_i64(v).map(|x| x as i64), &[("CounterClockwise", 0), ("Clockwise", 1)]),
    ("AngleFormat", |v| AngleFormat::from_i64(v).map(|x| x as i64), &[("DecimalDegrees", 0), ("DegreesMinutesSeconds", 1), ("Gradians", 2), ("Radians", 3), ("SurveyorsUnits", 4)]),
    ("AttachmentPoint", |v| AttachmentPoint::from_i64(v).map(|x| x as i64), &[("TopLeft", 1), ("TopCenter", 2), ("TopRight", 3), ("MiddleLeft", 4), ("MiddleCenter", 5), ("MiddleRight", 6), ("BottomLeft", 7), ("BottomCenter", 8), ("BottomRight", 9)]),
    ("AttributeVisibility", |v| AttributeVisibility::from_i64(v).map(|x| x as i64), &[("None", 0), ("Normal", 1), ("All", 2)]),
    ("BackgroundFillSetting", |v| BackgroundFillSetting::from_i64(v).map(|x| x as i64), &[("Off", 0), ("UseBackgroundFillColor", 1), ("UseDrawingWindowColor", 2)]),
    ("BottomTextAttachmentDirection", |v| BottomTextAttachmentDirection::from_i64(v).map(|x| x as i64), &[("Center", 9), ("UnderlineAndCenter", 10)]),
    ("CoordinateDisplay", |v| CoordinateDisplay::from_i64(v).map(|x| x as i64), &[("Static", 0), ("ContinuousUpdate", 1), ("DistanceAngleFormat", 2)]),
    ("DefaultLightingType", |v| DefaultLightingType::from_i64(v).map(|x| x as i64), &[("OneDistantLight", 0), ("TwoDistantLights", 1)]),
    ("DesignCoordinateType", |v| DesignCoordinateType::from_i64(v).map(|x| x as i64), &[("Unknown", 0), ("LocalGrid", 1), ("ProjectedGrid", 2), ("Geographic", 3)]),
    ("DiagnosticBSPMode", |v| DiagnosticBSPMode::from_i64(v).map(|x| x as i64), &[("Depth", 0), ("Size", 1)]),
    ("DiagnosticPhotonMode", |v| DiagnosticPhotonMode::from_i64(v).map(|x| x as i64), &[("Density", 0), ("Irradiance", 1)]),
    ("DictionaryDuplicateRecordHandling", |v| DictionaryDuplicateRecordHandling::from_i64(v).map(|x| x as i64), &[("NotApplicable", 0), ("KeepExisting", 1), ("UseClone", 2), ("UpdateXrefAndName", 3), ("UpdateName", 4), ("UnmangleName", 5)]),
    ("DimensionArcSymbolDisplayMode", |v| DimensionArcSymbolDisplayMode::from_i64(v).map(|x| x as i64), &[("SymbolBeforeText", 0), ("SymbolAboveText", 1), ("Suppress", 2)]),
    ("DimensionAssociativity", |v| DimensionAssociativity::from_i64(v).map(|x| x as i64), &[("NoAssociationExploded", 0), ("NonAssociativeObjects", 1), ("AssociativeObjects", 2)]),
    ("DimensionFit", |v| DimensionFit::from_i64(v).map(|x| x as i64), &[("TextAndArrowsOutsideLines", 0), ("MoveArrowsFirst", 1), ("MoveTextFirst", 2), ("MoveEitherForBestFit", 3)]),
    ("DimensionFractionFormat", |v| DimensionFractionFormat::from_i64(v).map(|x| x as i64), &[("HorizontalStacking", 0), ("DiagonalStacking", 1), ("NotStacked", 2)]),
    ("DimensionTextBackgroundColorMode", |v| DimensionTextBackgroundColorMode::from_i64(v).map(|x| x as i64), &[("None", 0), ("UseDrawingBackground", 1), ("Custom", 2)]),
    ("DimensionTextJustification", |v| DimensionTextJustification::from_i64(v).map(|x| x as i64), &[("AboveLineCenter", 0), ("AboveLineNextToFirstExtension", 1), ("AboveLineNextToSecondExtension", 2), ("AboveLineCenteredOnFirstExtension", 3), ("AboveLineCenteredOnSecondExtension", 4)]),
    ("DimensionTextMovementRule", |v| DimensionTextMovementRule::from_i64(v).map(|x| x as i64), &[("MoveLineWithText", 0), ("AddLeaderWhenTextIsMoved", 1), ("MoveTextFreely", 2)]),
    ("DimensionType", |v| DimensionType::from_i64(v).map(|x| x as i64), &[("RotatedHorizontalOrVertical", 0), ("Aligned", 1), ("Angular", 2), ("Diameter", 3), ("Radius", 4), ("AngularThreePoint", 5), ("Ordinate", 6)]),
    ("DragMode", |v| DragMode::from_i64(v).map(|x| x as i64), &[("Off", 0), ("On", 1), ("Auto", 2)]),
    ("DrawingDirection", |v| DrawingDirection::from_i64(v).map(|x| x as i64), &[("LeftToRight", 1), ("TopToBottom", 3), ("ByStyle", 5)]),
    ("DrawingTimeZone", |v| DrawingTimeZone::from_i64(v).map(|x| x as i64), &[("InternationalDateLineWest", -12000), ("MidwayIsland_Samoa", -11000), ("Hawaii", -10000), ("Alaska", -9000), ("PacificTime_US_Canada_SanFrancisco_Vancouver", -8000), ("Arizona", -7000), ("Mazatlan", -7002), ("CentralAmerica", -6000), ("CentralTime_US_Canada", -6001), ("Guadalajara_MexicoCity_Monterrey", -6002), ("Saskatchewan", -6003), ("EasternTime_US_Canada_", -5000), ("Indiana_East_", -5001), ("Bogota_Lima_Quito", -5002), ("AtlanticTime_Canada_", -4000), ("Caracas_LaPaz", -4001), ("Santiago", -4002), ("Newfoundland", -3300), ("Brasilia", -3000), ("BuenosAires_Georgetown", -3001), ("Greenland", -3002), ("MidAtlantic", -2000), ("Azores", -1000), ("CapeVerdeIs", -1001), ("UniversalCoordinatedTime", 0), ("GreenwichMeanTime", 1), ("Casablanca_Monrovia", 2), ("Amsterdam_Berlin_Bern_Rome_Stockholm", 1000), ("Brussels_Madrid_Copenhagen_Paris", 1001), ("Belgrade_Bratislava_Budapest_Ljubljana_Prague", 1002), ("Sarajevo_Skopje_Warsaw_Zagreb", 1003), ("WestCentralAfrica", 1004), ("Athens_Beirut_Istanbul_Minsk", 2000), ("Bucharest", 2001), ("Cairo", 2002), ("Harare_Pretoria", 2003), ("Helsinki_Kyiv_Sofia_Talinn_Vilnius", 2004), ("Jerusalem", 2005), ("Moscow_StPetersburg_Volograd", 3000), ("Kuwait_Riyadh", 3001), ("Baghdad", 3002), ("Nairobi", 3003), ("Tehran", 3300), ("AbuDhabi_Muscat", 4000), ("Baku_Tbilisi_Yerevan", 4001), ("Kabul", 4300), ("Ekaterinburg", 5000), ("Islamabad_Karachi_Tashkent", 5001), ("Chennai_Kolkata_Mumbai_NewDelhi", 5300), ("Kathmandu", 5450), ("Almaty_Novosibirsk", 6000), ("Astana_Dhaka", 6001), ("SriJayawardenepura", 6002), ("Rangoon", 6300), ("Bangkok_Hanoi_Jakarta", 7000), ("Krasnoyarsk", 7001), ("Beijing_Chongqing_HongKong_Urumqi", 8000), ("KualaLumpur_Singapore", 8001), ("Taipei", 8002), ("Irkutsk_UlaanBataar", 8003), ("Perth", 8004), ("Osaka_Sapporo_Tokyo", 9000), ("Seoul", 9001), ("Yakutsk", 9002), ("Adelaide", 9300), ("Darwin", 9301), ("Canberra_Melbourne_Sydney", 10000), ("Guam_PortMoresby", 10001), ("Brisbane", 10002), ("Hobart", 10003), ("Vladivostok", 10004), ("Magadan_SolomonIs_NewCaledonia", 11000), ("Auckland_Wellington", 12000), ("Fiji_Kamchatka_MarshallIs", 12001), ("Nukualofa_Tonga", 13000)]),
    ("DrawingUnits", |v| DrawingUnits::from_i64(v).map(|x| x as i64), &[("English", 0), ("Metric", 1)]),
    ("Dwf3DPrecision", |v| Dwf3DPrecision::from_i64(v).map(|x| x as i64), &[("Deviation_1", 1), ("Deviation_0_5", 2), ("Deviation_0_2", 3), ("Deviation_0_1", 4), ("Deviation_0_01", 5), ("Deviation_0_001", 6)]),
    ("EdgeStyleModel", |v| EdgeStyleModel::from_i64(v).map(|x| x as i64), &[("NoEdges", 0), ("IsoLines", 1), ("FacetEdges", 2)]),
    ("EndCapSetting", |v| EndCapSetting::from_i64(v).map(|x| x as i64), &[("None", 0), ("Round", 1), ("Angle", 2), ("Square", 3)]),
    ("FaceColorMode", |v| FaceColorMode::from_i64(v).map(|x| x as i64), &[("NoColor", 0), ("ObjectColor", 1), ("BackgroundColor", 2), ("CustomColor", 3), ("MonoColor", 4), ("Tinted", 5), ("Desaturated", 6)]),
    ("FaceLightingModel", |v| FaceLightingModel::from_i64(v).map(|x| x as i64), &[("Invisible", 0), ("Visible", 1), ("Phong", 2), ("Gooch", 3)]),
    ("FaceLightingQuality", |v| FaceLightingQuality::from_i64(v).map(|x| x as i64), &[("None", 0), ("PerFace", 1), ("PerVertex", 2)]),
    ("FaceModifier", |v| FaceModifier::from_i64(v).map(|x| x as i64), &[("None", 0), ("Opacity", 1), ("Specular", 2)]),
    ("FlowDirection", |v| FlowDirection::from_i64(v).map(|x| x as i64), &[("Down", 0), ("Up", 1)]),
    ("FontType", |v| FontType::from_i64(v).map(|x| x as i64), &[("TTF", 0), ("SHX", 1)]),
    ("GeoDataVersion", |v| GeoDataVersion::from_i64(v).map(|x| x as i64), &[("R2009", 1), ("R2010", 2)]),
    ("HelixConstraint", |v| HelixConstraint::from_i64(v).map(|x| x as i64), &[("ConstrainTurnHeight", 0), ("ConstrainTurns", 1), ("ConstrainHeight", 2)]),
    ("HorizontalTextJustification", |v| HorizontalTextJustification::from_i64(v).map(|x| x as i64), &[("Left", 0), ("Center", 1), ("Right", 2), ("Aligned", 3), ("Middle", 4), ("Fit", 5)]),
    ("ImageClippingBoundaryType", |v| ImageClippingBoundaryType::from_i64(v).map(|x| x as i64), &[("Rectangular", 1), ("Polygonal", 2)]),
    ("ImageResolutionUnits", |v| ImageResolutionUnits::from_i64(v).map(|x| x as i64), &[("NoUnits", 0), ("Centimeters", 2), ("Inches", 5)]),
    ("JoinStyle", |v| JoinStyle::from_i64(v).map(|x| x as i64), &[("None", 0), ("Round", 1), ("Angle", 2), ("Flat", 3)]),
    ("Justification", |v| Justification::from_i64(v).map(|x| x as i64), &[("Top", 0), ("Middle", 1), ("Bottom", 2)]),
    ("LayerAndSpatialIndexSaveMode", |v| LayerAndSpatialIndexSaveMode::from_i64(v).map(|x| x as i64), &[("None", 0), ("LayerIndex", 1), ("SpatialIndex", 2), ("LayerAndSpatialIndex", 3)]),
    ("LeaderCreationAnnotationType", |v| LeaderCreationAnnotationType::from_i64(v).map(|x| x as i64), &[("WithTextAnnotation", 0), ("WithToleranceAnnotation", 1), ("WithBlockReferenceAnnotation", 2), ("NoAnnotation", 3)]),
    ("LeaderHooklineDirection", |v| LeaderHooklineDirection::from_i64(v).map(|x| x as i64), &[("OppositeFromHorizontalVector", 0), ("SameAsHorizontalVector", 1)]),
    ("LeaderPathType", |v| LeaderPathType::from_i64(v).map(|x| x as i64), &[("StraightLineSegments", 0), ("Spline", 1)]),
    ("LightAttenuationType", |v| LightAttenuationType::from_i64(v).map(|x| x as i64), &[("None", 0), ("InverseLinear", 1), ("InverseSquare", 2)]),
    ("LightType", |v| LightType::from_i64(v).map(|x| x as i64), &[("Distant", 1), ("Point", 2), ("Spot", 3)]),
    ("LineTypeStyle", |v| LineTypeStyle::from_i64(v).map(|x| x as i64), &[("Off", 0), ("Solid", 1), ("Dashed", 2), ("Dotted", 3), ("ShortDash", 4), ("MediumDash", 5), ("LongDash", 6), ("DoubleShortDash", 7), ("DoubleMediumDash", 8), ("DoubleLongDash", 9), ("MediumLongDash", 10), ("SparseDot", 11)]),
    ("LoftedObjectNormalMode", |v| LoftedObjectNormalMode::from_i64(v).map(|x| x as i64), &[("Ruled", 0), ("SmoothFit", 1), ("StartCrossSection", 2), ("EndCrossSection", 3), ("StartAndEndCrossSections", 4), ("AllCrossSections", 5), ("UseDraftAngleAndMagnitude", 6)]),
    ("MTextFlag", |v| MTextFlag::from_i64(v).map(|x| x as i64), &[("MultilineAttribute", 2), ("ConstantMultilineAttributeDefinition", 4)]),
    ("MTextLineSpacingStyle", |v| MTextLineSpacingStyle::from_i64(v).map(|x| x as i64), &[("AtLeast", 1), ("Exact", 2)]),
    ("MapAutoTransformMethod", |v| MapAutoTransformMethod::from_i64(v).map(|x| x as i64), &[("NoAutoTransform", 1), ("ScaleToCurrentEntity", 2), ("IncludeCurrentBlockTransform", 4)]),
    ("MapProjectionMethod", |v| MapProjectionMethod::from_i64(v).map(|x| x as i64), &[("Planar", 1), ("Box", 2), ("Cylinder", 3), ("Sphere", 4)]),
    ("MapTilingMethod", |v| MapTilingMethod::from_i64(v).map(|x| x as i64), &[("Tile", 1), ("Crop", 2), ("Clamp", 3)]),
    ("NonAngularUnits", |v| NonAngularUnits::from_i64(v).map(|x| x as i64), &[("Scientific", 1), ("Decimal", 2), ("Engineering", 3), ("Architectural", 4), ("Fractional", 5), ("WindowsDesktop", 6)]),
    ("ObjectOsnapType", |v| ObjectOsnapType::from_i64(v).map(|x| x as i64), &[("None", 0), ("Endpoint", 1), ("Midpoint", 2), ("Center", 3), ("Node", 4), ("Quadrant", 5), ("Intersection", 6), ("Insertion", 7), ("Perpendicular", 8), ("Tangent", 9), ("Nearest", 10), ("ApparentIntersection", 11), ("Parallel", 12), ("StartPoint", 13)]),
    ("OleObjectType", |v| OleObjectType::from_i64(v).map(|x| x as i64), &[("Link", 1), ("Embedded", 2), ("Static", 3)]),
    ("OrthographicViewType", |v| OrthographicViewType::from_i64(v).map(|x| x as i64), &[("None", 0), ("Top", 1), ("Bottom", 2), ("Front", 3), ("Back", 4), ("Left", 5), ("Right", 6)]),
    ("PickStyle", |v| PickStyle::from_i64(v).map(|x| x as i64), &[("None", 0), ("Group", 1), ("AssociativeHatch", 2), ("GroupAndAssociativeHatch", 3)]),
    ("PlotPaperUnits", |v| PlotPaperUnits::from_i64(v).map(|x| x as i64), &[("Inches", 0), ("Millimeters", 1), ("Pixels", 2)]),
    ("PlotRotation", |v| PlotRotation::from_i64(v).map(|x| x as i64), &[("NoRotation", 0), ("CounterClockwise90Degrees", 1), ("UpsideDown", 2), ("Clockwise90Degrees", 3)]),
    ("PlotStyle", |v| PlotStyle::from_i64(v).map(|x| x as i64), &[("ByLayer", 0), ("ByBlock", 1), ("ByDictionaryDefault", 2), ("ByObjectId", 3)]),
    ("PlotType", |v| PlotType::from_i64(v).map(|x| x as i64), &[("LastScreenDisplay", 0), ("DrawingExtents", 1), ("DrawingLimits", 2), ("SpecificView", 3), ("SpecificWindow", 4), ("LayoutInformation", 5)]),
    ("PolySketchMode", |v| PolySketchMode::from_i64(v).map(|x| x as i64), &[("SketchLines", 0), ("SketchPolylines", 1)]),
    ("PolylineCurvedAndSmoothSurfaceType", |v| PolylineCurvedAndSmoothSurfaceType::from_i64(v).map(|x| x as i64), &[("None", 0), ("QuadraticBSpline", 5), ("CubicBSpline", 6), ("Bezier", 8)]),
    ("RasterImageUnits", |v| RasterImageUnits::from_i64(v).map(|x| x as i64), &[("None", 0), ("Millimeter", 1), ("Centimeter", 2), ("Meter", 3), ("Kilometer", 4), ("Inch", 5), ("Foot", 6), ("Yard", 7), ("Mile", 8)]),
    ("RenderAccuracy", |v| RenderAccuracy::from_i64(v).map(|x| x as i64), &[("Low", 0), ("Draft", 1), ("High", 2)]),
    ("RenderDestination", |v| RenderDestination::from_i64(v).map(|x| x as i64), &[("RenderWindow", 0), ("Viewport", 1)]),
    ("RenderDiagnosticGridMode", |v| RenderDiagnosticGridMode::from_i64(v).map(|x| x as i64), &[("Object", 0), ("World", 1), ("Camera", 2)]),
    ("RenderDiagnosticMode", |v| RenderDiagnosticMode::from_i64(v).map(|x| x as i64), &[("Off", 0), ("Grid", 1), ("Photon", 2), ("BSP", 4)]),
    ("RenderDuration", |v| RenderDuration::from_i64(v).map(|x| x as i64), &[("ByTime", 0), ("ByLevel", 1), ("UntilSatisfactory", 2)]),
    ("RenderProcedure", |v| RenderProcedure::from_i64(v).map(|x| x as i64), &[("View", 0), ("Crop", 1), ("Selection", 2)]),
    ("RenderShadowMode", |v| RenderShadowMode::from_i64(v).map(|x| x as i64), &[("Simple", 0), ("Sort", 1), ("Segment", 2)]),
    ("RotatedDimensionType", |v| RotatedDimensionType::from_i64(v).map(|x| x as i64), &[("Parallel", 0), ("Perpendicular", 1)]),
    ("SamplingFilterType", |v| SamplingFilterType::from_i64(v).map(|x| x as i64), &[("Box", 0), ("Triangle", 1), ("Gauss", 2), ("Mitchell", 3), ("Lanczos", 4)]),
    ("ScaleEstimationMethod", |v| ScaleEstimationMethod::from_i64(v).map(|x| x as i64), &[("None", 1), ("UserSpecified", 2), ("GridAtReferencePoint", 3), ("Prismoidal", 4)]),
    ("ShadeEdgeMode", |v| ShadeEdgeMode::from_i64(v).map(|x| x as i64), &[("FacesShadedEdgeNotHighlighted", 0), ("FacesShadedEdgesHighlightedInBlack", 1), ("FacesNotFilledEdgesInEntityColor", 2), ("FacesInEntityColorEdgesInBlack", 3)]),
    ("ShadePlotMode", |v| ShadePlotMode::from_i64(v).map(|x| x as i64), &[("AsDisplayed", 0), ("Wireframe", 1), ("Hidden", 2), ("Rendered", 3)]),
    ("ShadePlotResolutionLevel", |v| ShadePlotResolutionLevel::from_i64(v).map(|x| x as i64), &[("Draft", 0), ("Preview", 1), ("Normal", 2), ("Presentation", 3), ("Maximum", 4), ("Custom", 5)]),
    ("ShadowMode", |v| ShadowMode::from_i64(v).map(|x| x as i64), &[("CastsAndReceivesShadows", 0), ("CastsShadows", 1), ("ReceivesShadows", 2), ("IgnoresShadows", 3)]),
    ("ShadowType", |v| ShadowType::from_i64(v).map(|x| x as i64), &[("RayTraced", 0), ("ShadowMaps", 1)]),
    ("SnapIsometricPlane", |v| SnapIsometricPlane::from_i64(v).map(|x| x as i64), &[("Left", 0), ("Top", 1), ("Right", 2)]),
    ("SnapStyle", |v| SnapStyle::from_i64(v).map(|x| x as i64), &[("Standard", 0), ("Isometric", 1)]),
    ("SolidHistoryMode", |v| SolidHistoryMode::from_i64(v).map(|x| x as i64), &[("None", 0), ("DoesNotOverride", 1), ("Override", 2)]),
    ("StandardScale", |v| StandardScale::from_i64(v).map(|x| x as i64), &[("ScaledToFit", 0), ("Scale_1_128_inch_to_1_foot", 1), ("Scale_1_64_inch_to_1_foot", 2), ("Scale_1_32_inch_to_1_foot", 3), ("Scale_1_16_inch_to_1_foot", 4), ("Scale_3_32_inch_to_1_foot", 5), ("Scale_1_8_inch_to_1_foot", 6), ("Scale_3_16_inch_to_1_foot", 7), ("Scale_1_4_inch_to_1_foot", 8), ("Scale_3_8_inch_to_1_foot", 9), ("Scale_1_2_inch_to_1_foot", 10), ("Scale_3_4_inch_to_1_foot", 11), ("Scale_1_inch_to_1_foot", 12), ("Scale_3_inches_to_1_foot", 13), ("Scale_6_inches_to_1_foot", 14), ("Scale_1_foot_to_1_foot", 15), ("Scale_1_to_1", 16), ("Scale_1_to_2", 17), ("Scale_1_to_4", 18), ("Scale_1_to_8", 19), ("Scale_1_to_10", 20), ("Scale_1_to_16", 21), ("Scale_1_to_20", 22), ("Scale_1_to_30", 23), ("Scale_1_to_40", 24), ("Scale_1_to_50", 25), ("Scale_1_to_100", 26), ("Scale_2_to_1", 27), ("Scale_4_to_1", 28), ("Scale_8_to_1", 29), ("Scale_10_to_1", 30), ("Scale_100_to_1", 31), ("Scale_1000_to_1", 32)]),
    ("SubentityType", |v| SubentityType::from_i64(v).map(|x| x as i64), &[("Edge", 1), ("Face", 2)]),
    ("TextAttachmentDirection", |v| TextAttachmentDirection::from_i64(v).map(|x| x as i64), &[("Horizontal", 0), ("Vertical", 1)]),
    ("TextDirection", |v| TextDirection::from_i64(v).map(|x| x as i64), &[("LeftToRight", 0), ("RightToLeft", 1)]),
    ("TextLineSpacingStyle", |v| TextLineSpacingStyle::from_i64(v).map(|x| x as i64), &[("AtLeast", 1), ("Exact", 2)]),
    ("TileModeDescriptor", |v| TileModeDescriptor::from_i64(v).map(|x| x as i64), &[("InTiledViewport", 0), ("InNonTiledViewport", 1)]),
    ("TileOrder", |v| TileOrder::from_i64(v).map(|x| x as i64), &[("Hilbert", 0), ("Spiral", 1), ("LeftToRight", 2), ("RightToLeft", 3), ("TopToBottom", 4), ("BottomToTop", 5)]),
    ("TopTextAttachmentDirection", |v| TopTextAttachmentDirection::from_i64(v).map(|x| x as i64), &[("Center", 9), ("OverlineAndCenter", 10)]),
    ("UcsOrthographicType", |v| UcsOrthographicType::from_i64(v).map(|x| x as i64), &[("NotOrthographic", 0), ("Top", 1), ("Bottom", 2), ("Front", 3), ("Back", 4), ("Left", 5), ("Right", 6)]),
    ("UnderlayFrameMode", |v| UnderlayFrameMode::from_i64(v).map(|x| x as i64), &[("None", 0), ("DisplayAndPlot", 1), ("DisplayNoPlot", 2)]),
    ("UnitFormat", |v| UnitFormat::from_i64(v).map(|x| x as i64), &[("Scientific", 1), ("Decimal", 2), ("Engineering", 3), ("ArchitecturalStacked", 4), ("FractionalStacked", 5), ("Architectural", 6), ("Fractional", 7)]),
    ("UnitZeroSuppression", |v| UnitZeroSuppression::from_i64(v).map(|x| x as i64), &[("SuppressZeroFeetAndZeroInches", 0), ("IncludeZeroFeetAndZeroInches", 1), ("IncludeZeroFeetAndSuppressZeroInches", 2), ("IncludeZeroInchesAndSuppressZeroFeet", 3)]),
    ("Units", |v| Units::from_i64(v).map(|x| x as i64), &[("Unitless", 0), ("Inches", 1), ("Feet", 2), ("Miles", 3), ("Millimeters", 4), ("Centimeters", 5), ("Meters", 6), ("Kilometers", 7), ("Microinches", 8), ("Mils", 9), ("Yards", 10), ("Angstroms", 11), ("Nanometers", 12), ("Microns", 13), ("Decimeters", 14), ("Decameters", 15), ("Hectometers", 16), ("Gigameters", 17), ("AstronomicalUnits", 18), ("LightYears", 19), ("Parsecs", 20), ("USSurveyFeet", 21), ("USSurveyInch", 22), ("USSurveyYard", 23), ("USSurveyMile", 24)]),
    ("Version", |v| Version::from_i64(v).map(|x| x as i64), &[("R2010", 0)]),
    ("VerticalTextJustification", |v| VerticalTextJustification::from_i64(v).map(|x| x as i64), &[("Baseline", 0), ("Bottom", 1), ("Middle", 2), ("Top", 3)]),
    ("ViewRenderMode", |v| ViewRenderMode::from_i64(v).map(|x| x as i64), &[("Classic2D", 0), ("Wireframe", 1), ("HiddenLine", 2), ("FlatShaded", 3), ("GouraudShaded", 4), ("FlatShadedWithWireframe", 5), ("GouraudShadedWithWireframe", 6)]),
    ("XrefClippingBoundaryVisibility", |v| XrefClippingBoundaryVisibility::from_i64(v).map(|x| x as i64), &[("NotDisplayedNotPlotted", 0), ("DisplayedAndPlotted", 1), ("DisplayedNotPlotted", 2)]),
];
/// the number of every variant
pub static NUMS: &[(&str, i64, i64)] = &[
    ("AngleDirection::CounterClockwise", AngleDirection::CounterClockwise as i64, 0),
    ("AngleDirection::Clockwise", AngleDirection::Clockwise as i64, 1),
    ("AngleFormat::DecimalDegrees", AngleFormat::DecimalDegrees as i64, 0),
    ("AngleFormat::DegreesMinutesSeconds", AngleFormat::DegreesMinutesSeconds as i64, 1),
    ("AngleFormat::Gradians", AngleFormat::Gradians as i64, 2),
    ("AngleFormat::Radians", AngleFormat::Radians as i64, 3),
    ("AngleFormat::SurveyorsUnits", AngleFormat::SurveyorsUnits as i64, 4),
    ("AttachmentPoint::TopLeft", AttachmentPoint::TopLeft as i64, 1),
    ("AttachmentPoint::TopCenter", AttachmentPoint::TopCenter as i64, 2),
    ("AttachmentPoint::TopRight", AttachmentPoint::TopRight as i64, 3),
    ("AttachmentPoint::MiddleLeft", AttachmentPoint::MiddleLeft as i64, 4),
    ("AttachmentPoint::MiddleCenter", AttachmentPoint::MiddleCenter as i64, 5),
    ("AttachmentPoint::MiddleRight", AttachmentPoint::MiddleRight as i64, 6),
    ("AttachmentPoint::BottomLeft", AttachmentPoint::BottomLeft as i64, 7),
    ("AttachmentPoint::BottomCenter", AttachmentPoint::BottomCenter as i64, 8),
    ("AttachmentPoint::BottomRight", AttachmentPoint::BottomRight as i64, 9),
    ("AttributeVisibility::None", AttributeVisibility::None as i64, 0),
    ("AttributeVisibility::Normal", AttributeVisibility::Normal as i64, 1),
    ("AttributeVisibility::All", AttributeVisibility::All as i64, 2),
    ("BackgroundFillSetting::Off", BackgroundFillSetting::Off as i64, 0),
    ("BackgroundFillSetting::UseBackgroundFillColor", BackgroundFillSetting::UseBackgroundFillColor as i64, 1),
    ("BackgroundFillSetting::UseDrawingWindowColor", BackgroundFillSetting::UseDrawingWindowColor as i64, 2),
    ("BottomTextAttachmentDirection::Center", BottomTextAttachmentDirection::Center as i64, 9),
    ("BottomTextAttachmentDirection::UnderlineAndCenter", BottomTextAttachmentDirection::UnderlineAndCenter as i64, 10),
    ("CoordinateDisplay::Static", CoordinateDisplay::Static as i64, 0),
    ("CoordinateDisplay::ContinuousUpdate", CoordinateDisplay::ContinuousUpdate as i64, 1),
    ("CoordinateDisplay::DistanceAngleFormat", CoordinateDisplay::DistanceAngleFormat as i64, 2),
    ("DefaultLightingType::OneDistantLight", DefaultLightingType::OneDistantLight as i64, 0),
    ("DefaultLightingType::TwoDistantLights", DefaultLightingType::TwoDistantLights as i64, 1),
    ("DesignCoordinateType::Unknown", DesignCoordinateType::Unknown as i64, 0),
    ("DesignCoordinateType::LocalGrid", DesignCoordinateType::LocalGrid as i64, 1),
    ("DesignCoordinateType::ProjectedGrid", DesignCoordinateType::ProjectedGrid as i64, 2),
    ("DesignCoordinateType::Geographic", DesignCoordinateType::Geographic as i64, 3),
    ("DiagnosticBSPMode::Depth", DiagnosticBSPMode::Depth as i64, 0),
    ("DiagnosticBSPMode::Size", DiagnosticBSPMode::Size as i64, 1),
    ("DiagnosticPhotonMode::Density", DiagnosticPhotonMode::Density as i64, 0),
    ("DiagnosticPhotonMode::Irradiance", DiagnosticPhotonMode::Irradiance as i64, 1),
    ("DictionaryDuplicateRecordHandling::NotApplicable", DictionaryDuplicateRecordHandling::NotApplicable as i64, 0),
    ("DictionaryDuplicateRecordHandling::KeepExisting", DictionaryDuplicateRecordHandling::KeepExisting as i64, 1),
    ("DictionaryDuplicateRecordHandling::UseClone", DictionaryDuplicateRecordHandling::UseClone as i64, 2),
    ("DictionaryDuplicateRecordHandling::UpdateXrefAndName", DictionaryDuplicateRecordHandling::UpdateXrefAndName as i64, 3),
    ("DictionaryDuplicateRecordHandling::UpdateName", DictionaryDuplicateRecordHandling::UpdateName as i64, 4),
    ("DictionaryDuplicateRecordHandling::UnmangleName", DictionaryDuplicateRecordHandling::UnmangleName as i64, 5),
    ("DimensionArcSymbolDisplayMode::SymbolBeforeText", DimensionArcSymbolDisplayMode::SymbolBeforeText as i64, 0),
    ("DimensionArcSymbolDisplayMode::SymbolAboveText", DimensionArcSymbolDisplayMode::SymbolAboveText as i64, 1),
    ("DimensionArcSymbolDisplayMode::Suppress", DimensionArcSymbolDisplayMode::Suppress as i64, 2),
    ("DimensionAssociativity::NoAssociationExploded", DimensionAssociativity::NoAssociationExploded as i64, 0),
    ("DimensionAssociativity::NonAssociativeObjects", DimensionAssociativity::NonAssociativeObjects as i64, 1),
    ("DimensionAssociativity::AssociativeObjects", DimensionAssociativity::AssociativeObjects as i64, 2),
    ("DimensionFit::TextAndArrowsOutsideLines", DimensionFit::TextAndArrowsOutsideLines as i64, 0),
    ("DimensionFit::MoveArrowsFirst", DimensionFit::MoveArrowsFirst as i64, 1),
    ("DimensionFit::MoveTextFirst", DimensionFit::MoveTextFirst as i64, 2),
    ("DimensionFit::MoveEitherForBestFit", DimensionFit::MoveEitherForBestFit as i64, 3),
    ("DimensionFractionFormat::HorizontalStacking", DimensionFractionFormat::HorizontalStacking as i64, 0),
    ("DimensionFractionFormat::DiagonalStacking", DimensionFractionFormat::DiagonalStacking as i64, 1),
    ("DimensionFractionFormat::NotStacked", DimensionFractionFormat::NotStacked as i64, 2),
    ("DimensionTextBackgroundColorMode::None", DimensionTextBackgroundColorMode::None as i64, 0),
    ("DimensionTextBackgroundColorMode::UseDrawingBackground", DimensionTextBackgroundColorMode::UseDrawingBackground as i64, 1),
    ("DimensionTextBackgroundColorMode::Custom", DimensionTextBackgroundColorMode::Custom as i64, 2),
    ("DimensionTextJustification::AboveLineCenter", DimensionTextJustification::AboveLineCenter as i64, 0),
    ("DimensionTextJustification::AboveLineNextToFirstExtension", DimensionTextJustification::AboveLineNextToFirstExtension as i64, 1),
    ("DimensionTextJustification::AboveLineNextToSecondExtension", DimensionTextJustification::AboveLineNextToSecondExtension as i64, 2),
    ("DimensionTextJustification::AboveLineCenteredOnFirstExtension", DimensionTextJustification::AboveLineCenteredOnFirstExtension as i64, 3),
    ("DimensionTextJustification::AboveLineCenteredOnSecondExtension", DimensionTextJustification::AboveLineCenteredOnSecondExtension as i64, 4),
    ("DimensionTextMovementRule::MoveLineWithText", DimensionTextMovementRule::MoveLineWithText as i64, 0),
    ("DimensionTextMovementRule::AddLeaderWhenTextIsMoved", DimensionTextMovementRule::AddLeaderWhenTextIsMoved as i64, 1),
    ("DimensionTextMovementRule::MoveTextFreely", DimensionTextMovementRule::MoveTextFreely as i64, 2),
    ("DimensionType::RotatedHorizontalOrVertical", DimensionType::RotatedHorizontalOrVertical as i64, 0),
    ("DimensionType::Aligned", DimensionType::Aligned as i64, 1),
    ("DimensionType::Angular", DimensionType::Angular as i64, 2),
    ("DimensionType::Diameter", DimensionType::Diameter as i64, 3),
    ("DimensionType::Radius", DimensionType::Radius as i64, 4),
    ("DimensionType::AngularThreePoint", DimensionType::AngularThreePoint as i64, 5),
    ("DimensionType::Ordinate", DimensionType::Ordinate as i64, 6),
    ("DragMode::Off", DragMode::Off as i64, 0),
    ("DragMode::On", DragMode::On as i64, 1),
    ("DragMode::Auto", DragMode::Auto as i64, 2),
    ("DrawingDirection::LeftToRight", DrawingDirection::LeftToRight as i64, 1),
    ("DrawingDirection::TopToBottom", DrawingDirection::TopToBottom as i64, 3),
    ("DrawingDirection::ByStyle", DrawingDirection::ByStyle as i64, 5),
    ("DrawingTimeZone::InternationalDateLineWest", DrawingTimeZone::InternationalDateLineWest as i64, -12000),
    ("DrawingTimeZone::MidwayIsland_Samoa", DrawingTimeZone::MidwayIsland_Samoa as i64, -11000),
    ("DrawingTimeZone::Hawaii", DrawingTimeZone::Hawaii as i64, -10000),
    ("DrawingTimeZone::Alaska", DrawingTimeZone::Alaska as i64, -9000),
    ("DrawingTimeZone::PacificTime_US_Canada_SanFrancisco_Vancouver", DrawingTimeZone::PacificTime_US_Canada_SanFrancisco_Vancouver as i64, -8000),
    ("DrawingTimeZone::Arizona", DrawingTimeZone::Arizona as i64, -7000),
    ("DrawingTimeZone::Mazatlan", DrawingTimeZone::Mazatlan as i64, -7002),
    ("DrawingTimeZone::CentralAmerica", DrawingTimeZone::CentralAmerica as i64, -6000),
    ("DrawingTimeZone::CentralTime_US_Canada", DrawingTimeZone::CentralTime_US_Canada as i64, -6001),
    ("DrawingTimeZone::Guadalajara_MexicoCity_Monterrey", DrawingTimeZone::Guadalajara_MexicoCity_Monterrey as i64, -6002),
    ("DrawingTimeZone::Saskatchewan", DrawingTimeZone::Saskatchewan as i64, -6003),
    ("DrawingTimeZone::EasternTime_US_Canada_", DrawingTimeZone::EasternTime_US_Canada_ as i64, -5000),
    ("DrawingTimeZone::Indiana_East_", DrawingTimeZone::Indiana_East_ as i64, -5001),
    ("DrawingTimeZone::Bogota_Lima_Quito", DrawingTimeZone::Bogota_Lima_Quito as i64, -5002),
    ("DrawingTimeZone::AtlanticTime_Canada_", DrawingTimeZone::AtlanticTime_Canada_ as i64, -4000),
    ("DrawingTimeZone::Caracas_LaPaz", DrawingTimeZone::Caracas_LaPaz as i64, -4001),
    ("DrawingTimeZone::Santiago", DrawingTimeZone::Santiago as i64, -4002),
    ("DrawingTimeZone::Newfoundland", DrawingTimeZone::Newfoundland as i64, -3300),
    ("DrawingTimeZone::Brasilia", DrawingTimeZone::Brasilia as i64, -3000),
    ("DrawingTimeZone::BuenosAires_Georgetown", DrawingTimeZone::BuenosAires_Georgetown as i64, -3001),
    ("DrawingTimeZone::Greenland", DrawingTimeZone::Greenland as i64, -3002),
    ("DrawingTimeZone::MidAtlantic", DrawingTimeZone::MidAtlantic as i64, -2000),
    ("DrawingTimeZone::Azores", DrawingTimeZone::Azores as i64, -1000),
    ("DrawingTimeZone::CapeVerdeIs", DrawingTimeZone::CapeVerdeIs as i64, -1001),
    ("DrawingTimeZone::UniversalCoordinatedTime", DrawingTimeZone::UniversalCoordinatedTime as i64, 0),
    ("DrawingTimeZone::GreenwichMeanTime", DrawingTimeZone::GreenwichMeanTime as i64, 1),
    ("DrawingTimeZone::Casablanca_Monrovia", DrawingTimeZone::Casablanca_Monrovia as i64, 2),
    ("DrawingTimeZone::Amsterdam_Berlin_Bern_Rome_Stockholm", DrawingTimeZone::Amsterdam_Berlin_Bern_Rome_Stockholm as i64, 1000),
    ("DrawingTimeZone::Brussels_Madrid_Copenhagen_Paris", DrawingTimeZone::Brussels_Madrid_Copenhagen_Paris as i64, 1001),
    ("DrawingTimeZone::Belgrade_Bratislava_Budapest_Ljubljana_Prague", DrawingTimeZone::Belgrade_Bratislava_Budapest_Ljubljana_Prague as i64, 1002),
    ("DrawingTimeZone::Sarajevo_Skopje_Warsaw_Zagreb", DrawingTimeZone::Sarajevo_Skopje_Warsaw_Zagreb as i64, 1003),
    ("DrawingTimeZone::WestCentralAfrica", DrawingTimeZone::WestCentralAfrica as i64, 1004),
    ("DrawingTimeZone::Athens_Beirut_Istanbul_Minsk", DrawingTimeZone::Athens_Beirut_Istanbul_Minsk as i64, 2000),
    ("DrawingTimeZone::Bucharest", DrawingTimeZone::Bucharest as i64, 2001),
    ("DrawingTimeZone::Cairo", DrawingTimeZone::Cairo as i64, 2002),
    ("DrawingTimeZone::Harare_Pretoria", DrawingTimeZone::Harare_Pretoria as i64, 2003),
    ("DrawingTimeZone::Helsinki_Kyiv_Sofia_Talinn_Vilnius", DrawingTimeZone::Helsinki_Kyiv_Sofia_Talinn_Vilnius as i64, 2004),
    ("DrawingTimeZone::Jerusalem", DrawingTimeZone::Jerusalem as i64, 2005),
    ("DrawingTimeZone::Moscow_StPetersburg_Volograd", DrawingTimeZone::Moscow_StPetersburg_Volograd as i64, 3000),
    ("DrawingTimeZone::Kuwait_Riyadh", DrawingTimeZone::Kuwait_Riyadh as i64, 3001),
    ("DrawingTimeZone::Baghdad", DrawingTimeZone::Baghdad as i64, 3002),
    ("DrawingTimeZone::Nairobi", DrawingTimeZone::Nairobi as i64, 3003),
    ("DrawingTimeZone::Tehran", DrawingTimeZone::Tehran as i64, 3300),
    ("DrawingTimeZone::AbuDhabi_Muscat", DrawingTimeZone::AbuDhabi_Muscat as i64, 4000),
    ("DrawingTimeZone::Baku_Tbilisi_Yerevan", DrawingTimeZone::Baku_Tbilisi_Yerevan as i64, 4001),
    ("DrawingTimeZone::Kabul", DrawingTimeZone::Kabul as i64, 4300),
    ("DrawingTimeZone::Ekaterinburg", DrawingTimeZone::Ekaterinburg as i64, 5000),
    ("DrawingTimeZone::Islamabad_Karachi_Tashkent", DrawingTimeZone::Islamabad_Karachi_Tashkent as i64, 5001),
    ("DrawingTimeZone::Chennai_Kolkata_Mumbai_NewDelhi", DrawingTimeZone::Chennai_Kolkata_Mumbai_NewDelhi as i64, 5300),
    ("DrawingTimeZone::Kathmandu", DrawingTimeZone::Kathmandu as i64, 5450),
    ("DrawingTimeZone::Almaty_Novosibirsk", DrawingTimeZone::Almaty_Novosibirsk as i64, 6000),
    ("DrawingTimeZone::Astana_Dhaka", DrawingTimeZone::Astana_Dhaka as i64, 6001),
    ("DrawingTimeZone::SriJayawardenepura", DrawingTimeZone::SriJayawardenepura as i64, 6002),
    ("DrawingTimeZone::Rangoon", DrawingTimeZone::Rangoon as i64, 6300),
    ("DrawingTimeZone::Bangkok_Hanoi_Jakarta", DrawingTimeZone::Bangkok_Hanoi_Jakarta as i64, 7000),
    ("DrawingTimeZone::Krasnoyarsk", DrawingTimeZone::Krasnoyarsk as i64, 7001),
    ("DrawingTimeZone::Beijing_Chongqing_HongKong_Urumqi", DrawingTimeZone::Beijing_Chongqing_HongKong_Urumqi as i64, 8000),
    ("DrawingTimeZone::KualaLumpur_Singapore", DrawingTimeZone::KualaLumpur_Singapore as i64, 8001),
    ("DrawingTimeZone::Taipei", DrawingTimeZone::Taipei as i64, 8002),
    ("DrawingTimeZone::Irkutsk_UlaanBataar", DrawingTimeZone::Irkutsk_UlaanBataar as i64, 8003),
    ("DrawingTimeZone::Perth", DrawingTimeZone::Perth as i64, 8004),
    ("DrawingTimeZone::Osaka_Sapporo_Tokyo", DrawingTimeZone::Osaka_Sapporo_Tokyo as i64, 9000),
    ("DrawingTimeZone::Seoul", DrawingTimeZone::Seoul as i64, 9001),
    ("DrawingTimeZone::Yakutsk", DrawingTimeZone::Yakutsk as i64, 9002),
    ("DrawingTimeZone::Adelaide", DrawingTimeZone::Adelaide as i64, 9300),
    ("DrawingTimeZone::Darwin", DrawingTimeZone::Darwin as i64, 9301),
    ("DrawingTimeZone::Canberra_Melbourne_Sydney", DrawingTimeZone::Canberra_Melbourne_Sydney as i64, 10000),
    ("DrawingTimeZone::Guam_PortMoresby", DrawingTimeZone::Guam_PortMoresby as i64, 10001),
    ("DrawingTimeZone::Brisbane", DrawingTimeZone::Brisbane as i64, 10002),
    ("DrawingTimeZone::Hobart", DrawingTimeZone::Hobart as i64, 10003),
    ("DrawingTimeZone::Vladivostok", DrawingTimeZone::Vladivostok as i64, 10004),
    ("DrawingTimeZone::Magadan_SolomonIs_NewCaledonia", DrawingTimeZone::Magadan_SolomonIs_NewCaledonia as i64, 11000),
    ("DrawingTimeZone::Auckland_Wellington", DrawingTimeZone::Auckland_Wellington as i64, 12000),
    ("DrawingTimeZone::Fiji_Kamchatka_MarshallIs", DrawingTimeZone::Fiji_Kamchatka_MarshallIs as i64, 12001),
    ("DrawingTimeZone::Nukualofa_Tonga", DrawingTimeZone::Nukualofa_Tonga as i64, 13000),
    ("DrawingUnits::English", DrawingUnits::English as i64, 0),
    ("DrawingUnits::Metric", DrawingUnits::Metric as i64, 1),
    ("Dwf3DPrecision::Deviation_1", Dwf3DPrecision::Deviation_1 as i64, 1),
    ("Dwf3DPrecision::Deviation_0_5", Dwf3DPrecision::Deviation_0_5 as i64, 2),
    ("Dwf3DPrecision::Deviation_0_2", Dwf3DPrecision::Deviation_0_2 as i64, 3),
    ("Dwf3DPrecision::Deviation_0_1", Dwf3DPrecision::Deviation_0_1 as i64, 4),
    ("Dwf3DPrecision::Deviation_0_01", Dwf3DPrecision::Deviation_0_01 as i64, 5),
    ("Dwf3DPrecision::Deviation_0_001", Dwf3DPrecision::Deviation_0_001 as i64, 6),
    ("EdgeStyleModel::NoEdges", EdgeStyleModel::NoEdges as i64, 0),
    ("EdgeStyleModel::IsoLines", EdgeStyleModel::IsoLines as i64, 1),
    ("EdgeStyleModel::FacetEdges", EdgeStyleModel::FacetEdges as i64, 2),
    ("EndCapSetting::None", EndCapSetting::None as i64, 0),
    ("EndCapSetting::Round", EndCapSetting::Round as i64, 1),
    ("EndCapSetting::Angle", EndCapSetting::Angle as i64, 2),
    ("EndCapSetting::Square", EndCapSetting::Square as i64, 3),
    ("FaceColorMode::NoColor", FaceColorMode::NoColor as i64, 0),
    ("FaceColorMode::ObjectColor", FaceColorMode::ObjectColor as i64, 1),
    ("FaceColorMode::BackgroundColor", FaceColorMode::BackgroundColor as i64, 2),
    ("FaceColorMode::CustomColor", FaceColorMode::CustomColor as i64, 3),
    ("FaceColorMode::MonoColor", FaceColorMode::MonoColor as i64, 4),
    ("FaceColorMode::Tinted", FaceColorMode::Tinted as i64, 5),
    ("FaceColorMode::Desaturated", FaceColorMode::Desaturated as i64, 6),
    ("FaceLightingModel::Invisible", FaceLightingModel::Invisible as i64, 0),
    ("FaceLightingModel::Visible", FaceLightingModel::Visible as i64, 1),
    ("FaceLightingModel::Phong", FaceLightingModel::Phong as i64, 2),
    ("FaceLightingModel::Gooch", FaceLightingModel::Gooch as i64, 3),
    ("FaceLightingQuality::None", FaceLightingQuality::None as i64, 0),
    ("FaceLightingQuality::PerFace", FaceLightingQuality::PerFace as i64, 1),
    ("FaceLightingQuality::PerVertex", FaceLightingQuality::PerVertex as i64, 2),
    ("FaceModifier::None", FaceModifier::None as i64, 0),
    ("FaceModifier::Opacity", FaceModifier::Opacity as i64, 1),
    ("FaceModifier::Specular", FaceModifier::Specular as i64, 2),
    ("FlowDirection::Down", FlowDirection::Down as i64, 0),
    ("FlowDirection::Up", FlowDirection::Up as i64, 1),
    ("FontType::TTF", FontType::TTF as i64, 0),
    ("FontType::SHX", FontType::SHX as i64, 1),
    ("GeoDataVersion::R2009", GeoDataVersion::R2009 as i64, 1),
    ("GeoDataVersion::R2010", GeoDataVersion::R2010 as i64, 2),
    ("HelixConstraint::ConstrainTurnHeight", HelixConstraint::ConstrainTurnHeight as i64, 0),
    ("HelixConstraint::ConstrainTurns", HelixConstraint::ConstrainTurns as i64, 1),
    ("HelixConstraint::ConstrainHeight", HelixConstraint::ConstrainHeight as i64, 2),
    ("HorizontalTextJustification::Left", HorizontalTextJustification::Left as i64, 0),
    ("HorizontalTextJustification::Center", HorizontalTextJustification::Center as i64, 1),
    ("HorizontalTextJustification::Right", HorizontalTextJustification::Right as i64, 2),
    ("HorizontalTextJustification::Aligned", HorizontalTextJustification::Aligned as i64, 3),
    ("HorizontalTextJustification::Middle", HorizontalTextJustification::Middle as i64, 4),
    ("HorizontalTextJustification::Fit", HorizontalTextJustification::Fit as i64, 5),
    ("ImageClippingBoundaryType::Rectangular", ImageClippingBoundaryType::Rectangular as i64, 1),
    ("ImageClippingBoundaryType::Polygonal", ImageClippingBoundaryType::Polygonal as i64, 2),
    ("ImageResolutionUnits::NoUnits", ImageResolutionUnits::NoUnits as i64, 0),
    ("ImageResolutionUnits::Centimeters", ImageResolutionUnits::Centimeters as i64, 2),
    ("ImageResolutionUnits::Inches", ImageResolutionUnits::Inches as i64, 5),
    ("JoinStyle::None", JoinStyle::None as i64, 0),
    ("JoinStyle::Round", JoinStyle::Round as i64, 1),
    ("JoinStyle::Angle", JoinStyle::Angle as i64, 2),
    ("JoinStyle::Flat", JoinStyle::Flat as i64, 3),
    ("Justification::Top", Justification::Top as i64, 0),
    ("Justification::Middle", Justification::Middle as i64, 1),
    ("Justification::Bottom", Justification::Bottom as i64, 2),
    ("LayerAndSpatialIndexSaveMode::None", LayerAndSpatialIndexSaveMode::None as i64, 0),
    ("LayerAndSpatialIndexSaveMode::LayerIndex", LayerAndSpatialIndexSaveMode::LayerIndex as i64, 1),
    ("LayerAndSpatialIndexSaveMode::SpatialIndex", LayerAndSpatialIndexSaveMode::SpatialIndex as i64, 2),
    ("LayerAndSpatialIndexSaveMode::LayerAndSpatialIndex", LayerAndSpatialIndexSaveMode::LayerAndSpatialIndex as i64, 3),
    ("LeaderCreationAnnotationType::WithTextAnnotation", LeaderCreationAnnotationType::WithTextAnnotation as i64, 0),
    ("LeaderCreationAnnotationType::WithToleranceAnnotation", LeaderCreationAnnotationType::WithToleranceAnnotation as i64, 1),
    ("LeaderCreationAnnotationType::WithBlockReferenceAnnotation", LeaderCreationAnnotationType::WithBlockReferenceAnnotation as i64, 2),
    ("LeaderCreationAnnotationType::NoAnnotation", LeaderCreationAnnotationType::NoAnnotation as i64, 3),
    ("LeaderHooklineDirection::OppositeFromHorizontalVector", LeaderHooklineDirection::OppositeFromHorizontalVector as i64, 0),
    ("LeaderHooklineDirection::SameAsHorizontalVector", LeaderHooklineDirection::SameAsHorizontalVector as i64, 1),
    ("LeaderPathType::StraightLineSegments", LeaderPathType::StraightLineSegments as i64, 0),
    ("LeaderPathType::Spline", LeaderPathType::Spline as i64, 1),
    ("LightAttenuationType::None", LightAttenuationType::None as i64, 0),
    ("LightAttenuationType::InverseLinear", LightAttenuationType::InverseLinear as i64, 1),
    ("LightAttenuationType::InverseSquare", LightAttenuationType::InverseSquare as i64, 2),
    ("LightType::Distant", LightType::Distant as i64, 1),
    ("LightType::Point", LightType::Point as i64, 2),
    ("LightType::Spot", LightType::Spot as i64, 3),
    ("LineTypeStyle::Off", LineTypeStyle::Off as i64, 0),
    ("LineTypeStyle::Solid", LineTypeStyle::Solid as i64, 1),
    ("LineTypeStyle::Dashed", LineTypeStyle::Dashed as i64, 2),
    ("LineTypeStyle::Dotted", LineTypeStyle::Dotted as i64, 3),
    ("LineTypeStyle::ShortDash", LineTypeStyle::ShortDash as i64, 4),
    ("LineTypeStyle::MediumDash", LineTypeStyle::MediumDash as i64, 5),
    ("LineTypeStyle::LongDash", LineTypeStyle::LongDash as i64, 6),
    ("LineTypeStyle::DoubleShortDash", LineTypeStyle::DoubleShortDash as i64, 7),
    ("LineTypeStyle::DoubleMediumDash", LineTypeStyle::DoubleMediumDash as i64, 8),
    ("LineTypeStyle::DoubleLongDash", LineTypeStyle::DoubleLongDash as i64, 9),
    ("LineTypeStyle::MediumLongDash", LineTypeStyle::MediumLongDash as i64, 10),
    ("LineTypeStyle::SparseDot", LineTypeStyle::SparseDot as i64, 11),
    ("LoftedObjectNormalMode::Ruled", LoftedObjectNormalMode::Ruled as i64, 0),
    ("LoftedObjectNormalMode::SmoothFit", LoftedObjectNormalMode::SmoothFit as i64, 1),
    ("LoftedObjectNormalMode::StartCrossSection", LoftedObjectNormalMode::StartCrossSection as i64, 2),
    ("LoftedObjectNormalMode::EndCrossSection", LoftedObjectNormalMode::EndCrossSection as i64, 3),
    ("LoftedObjectNormalMode::StartAndEndCrossSections", LoftedObjectNormalMode::StartAndEndCrossSections as i64, 4),
    ("LoftedObjectNormalMode::AllCrossSections", LoftedObjectNormalMode::AllCrossSections as i64, 5),
    ("LoftedObjectNormalMode::UseDraftAngleAndMagnitude", LoftedObjectNormalMode::UseDraftAngleAndMagnitude as i64, 6),
    ("MTextFlag::MultilineAttribute", MTextFlag::MultilineAttribute as i64, 2),
    ("MTextFlag::ConstantMultilineAttributeDefinition", MTextFlag::ConstantMultilineAttributeDefinition as i64, 4),
    ("MTextLineSpacingStyle::AtLeast", MTextLineSpacingStyle::AtLeast as i64, 1),
    ("MTextLineSpacingStyle::Exact", MTextLineSpacingStyle::Exact as i64, 2),
    ("MapAutoTransformMethod::NoAutoTransform", MapAutoTransformMethod::NoAutoTransform as i64, 1),
    ("MapAutoTransformMethod::ScaleToCurrentEntity", MapAutoTransformMethod::ScaleToCurrentEntity as i64, 2),
    ("MapAutoTransformMethod::IncludeCurrentBlockTransform", MapAutoTransformMethod::IncludeCurrentBlockTransform as i64, 4),
    ("MapProjectionMethod::Planar", MapProjectionMethod::Planar as i64, 1),
    ("MapProjectionMethod::Box", MapProjectionMethod::Box as i64, 2),
    ("MapProjectionMethod::Cylinder", MapProjectionMethod::Cylinder as i64, 3),
    ("MapProjectionMethod::Sphere", MapProjectionMethod::Sphere as i64, 4),
    ("MapTilingMethod::Tile", MapTilingMethod::Tile as i64, 1),
    ("MapTilingMethod::Crop", MapTilingMethod::Crop as i64, 2),
    ("MapTilingMethod::Clamp", MapTilingMethod::Clamp as i64, 3),
    ("NonAngularUnits::Scientific", NonAngularUnits::Scientific as i64, 1),
    ("NonAngularUnits::Decimal", NonAngularUnits::Decimal as i64, 2),
    ("NonAngularUnits::Engineering", NonAngularUnits::Engineering as i64, 3),
    ("NonAngularUnits::Architectural", NonAngularUnits::Architectural as i64, 4),
    ("NonAngularUnits::Fractional", NonAngularUnits::Fractional as i64, 5),
    ("NonAngularUnits::WindowsDesktop", NonAngularUnits::WindowsDesktop as i64, 6),
    ("ObjectOsnapType::None", ObjectOsnapType::None as i64, 0),
    ("ObjectOsnapType::Endpoint", ObjectOsnapType::Endpoint as i64, 1),
    ("ObjectOsnapType::Midpoint", ObjectOsnapType::Midpoint as i64, 2),
    ("ObjectOsnapType::Center", ObjectOsnapType::Center as i64, 3),
    ("ObjectOsnapType::Node", ObjectOsnapType::Node as i64, 4),
    ("ObjectOsnapType::Quadrant", ObjectOsnapType::Quadrant as i64, 5),
    ("ObjectOsnapType::Intersection", ObjectOsnapType::Intersection as i64, 6),
    ("ObjectOsnapType::Insertion", ObjectOsnapType::Insertion as i64, 7),
    ("ObjectOsnapType::Perpendicular", ObjectOsnapType::Perpendicular as i64, 8),
    ("ObjectOsnapType::Tangent", ObjectOsnapType::Tangent as i64, 9),
    ("ObjectOsnapType::Nearest", ObjectOsnapType::Nearest as i64, 10),
    ("ObjectOsnapType::ApparentIntersection", ObjectOsnapType::ApparentIntersection as i64, 11),
    ("ObjectOsnapType::Parallel", ObjectOsnapType::Parallel as i64, 12),
    ("ObjectOsnapType::StartPoint", ObjectOsnapType::StartPoint as i64, 13),
    ("OleObjectType::Link", OleObjectType::Link as i64, 1),
    ("OleObjectType::Embedded", OleObjectType::Embedded as i64, 2),
    ("OleObjectType::Static", OleObjectType::Static as i64, 3),
    ("OrthographicViewType::None", OrthographicViewType::None as i64, 0),
    ("OrthographicViewType::Top", OrthographicViewType::Top as i64, 1),
    ("OrthographicViewType::Bottom", OrthographicViewType::Bottom as i64, 2),
    ("OrthographicViewType::Front", OrthographicViewType::Front as i64, 3),
    ("OrthographicViewType::Back", OrthographicViewType::Back as i64, 4),
    ("OrthographicViewType::Left", OrthographicViewType::Left as i64, 5),
    ("OrthographicViewType::Right", OrthographicViewType::Right as i64, 6),
    ("PickStyle::None", PickStyle::None as i64, 0),
    ("PickStyle::Group", PickStyle::Group as i64, 1),
    ("PickStyle::AssociativeHatch", PickStyle::AssociativeHatch as i64, 2),
    ("PickStyle::GroupAndAssociativeHatch", PickStyle::GroupAndAssociativeHatch as i64, 3),
    ("PlotPaperUnits::Inches", PlotPaperUnits::Inches as i64, 0),
    ("PlotPaperUnits::Millimeters", PlotPaperUnits::Millimeters as i64, 1),
    ("PlotPaperUnits::Pixels", PlotPaperUnits::Pixels as i64, 2),
    ("PlotRotation::NoRotation", PlotRotation::NoRotation as i64, 0),
    ("PlotRotation::CounterClockwise90Degrees", PlotRotation::CounterClockwise90Degrees as i64, 1),
    ("PlotRotation::UpsideDown", PlotRotation::UpsideDown as i64, 2),
    ("PlotRotation::Clockwise90Degrees", PlotRotation::Clockwise90Degrees as i64, 3),
    ("PlotStyle::ByLayer", PlotStyle::ByLayer as i64, 0),
    ("PlotStyle::ByBlock", PlotStyle::ByBlock as i64, 1),
    ("PlotStyle::ByDictionaryDefault", PlotStyle::ByDictionaryDefault as i64, 2),
    ("PlotStyle::ByObjectId", PlotStyle::ByObjectId as i64, 3),
    ("PlotType::LastScreenDisplay", PlotType::LastScreenDisplay as i64, 0),
    ("PlotType::DrawingExtents", PlotType::DrawingExtents as i64, 1),
    ("PlotType::DrawingLimits", PlotType::DrawingLimits as i64, 2),
    ("PlotType::SpecificView", PlotType::SpecificView as i64, 3),
    ("PlotType::SpecificWindow", PlotType::SpecificWindow as i64, 4),
    ("PlotType::LayoutInformation", PlotType::LayoutInformation as i64, 5),
    ("PolySketchMode::SketchLines", PolySketchMode::SketchLines as i64, 0),
    ("PolySketchMode::SketchPolylines", PolySketchMode::SketchPolylines as i64, 1),
    ("PolylineCurvedAndSmoothSurfaceType::None", PolylineCurvedAndSmoothSurfaceType::None as i64, 0),
    ("PolylineCurvedAndSmoothSurfaceType::QuadraticBSpline", PolylineCurvedAndSmoothSurfaceType::QuadraticBSpline as i64, 5),
    ("PolylineCurvedAndSmoothSurfaceType::CubicBSpline", PolylineCurvedAndSmoothSurfaceType::CubicBSpline as i64, 6),
    ("PolylineCurvedAndSmoothSurfaceType::Bezier", PolylineCurvedAndSmoothSurfaceType::Bezier as i64, 8),
    ("RasterImageUnits::None", RasterImageUnits::None as i64, 0),
    ("RasterImageUnits::Millimeter", RasterImageUnits::Millimeter as i64, 1),
    ("RasterImageUnits::Centimeter", RasterImageUnits::Centimeter as i64, 2),
    ("RasterImageUnits::Meter", RasterImageUnits::Meter as i64, 3),
    ("RasterImageUnits::Kilometer", RasterImageUnits::Kilometer as i64, 4),
    ("RasterImageUnits::Inch", RasterImageUnits::Inch as i64, 5),
    ("RasterImageUnits::Foot", RasterImageUnits::Foot as i64, 6),
    ("RasterImageUnits::Yard", RasterImageUnits::Yard as i64, 7),
    ("RasterImageUnits::Mile", RasterImageUnits::Mile as i64, 8),
    ("RenderAccuracy::Low", RenderAccuracy::Low as i64, 0),
    ("RenderAccuracy::Draft", RenderAccuracy::Draft as i64, 1),
    ("RenderAccuracy::High", RenderAccuracy::High as i64, 2),
    ("RenderDestination::RenderWindow", RenderDestination::RenderWindow as i64, 0),
    ("RenderDestination::Viewport", RenderDestination::Viewport as i64, 1),
    ("RenderDiagnosticGridMode::Object", RenderDiagnosticGridMode::Object as i64, 0),
    ("RenderDiagnosticGridMode::World", RenderDiagnosticGridMode::World as i64, 1),
    ("RenderDiagnosticGridMode::Camera", RenderDiagnosticGridMode::Camera as i64, 2),
    ("RenderDiagnosticMode::Off", RenderDiagnosticMode::Off as i64, 0),
    ("RenderDiagnosticMode::Grid", RenderDiagnosticMode::Grid as i64, 1),
    ("RenderDiagnosticMode::Photon", RenderDiagnosticMode::Photon as i64, 2),
    ("RenderDiagnosticMode::BSP", RenderDiagnosticMode::BSP as i64, 4),
    ("RenderDuration::ByTime", RenderDuration::ByTime as i64, 0),
    ("RenderDuration::ByLevel", RenderDuration::ByLevel as i64, 1),
    ("RenderDuration::UntilSatisfactory", RenderDuration::UntilSatisfactory as i64, 2),
    ("RenderProcedure::View", RenderProcedure::View as i64, 0),
    ("RenderProcedure::Crop", RenderProcedure::Crop as i64, 1),
    ("RenderProcedure::Selection", RenderProcedure::Selection as i64, 2),
    ("RenderShadowMode::Simple", RenderShadowMode::Simple as i64, 0),
    ("RenderShadowMode::Sort", RenderShadowMode::Sort as i64, 1),
    ("RenderShadowMode::Segment", RenderShadowMode::Segment as i64, 2),
    ("RotatedDimensionType::Parallel", RotatedDimensionType::Parallel as i64, 0),
    ("RotatedDimensionType::Perpendicular", RotatedDimensionType::Perpendicular as i64, 1),
    ("SamplingFilterType::Box", SamplingFilterType::Box as i64, 0),
    ("SamplingFilterType::Triangle", SamplingFilterType::Triangle as i64, 1),
    ("SamplingFilterType::Gauss", SamplingFilterType::Gauss as i64, 2),
    ("SamplingFilterType::Mitchell", SamplingFilterType::Mitchell as i64, 3),
    ("SamplingFilterType::Lanczos", SamplingFilterType::Lanczos as i64, 4),
    ("ScaleEstimationMethod::None", ScaleEstimationMethod::None as i64, 1),
    ("ScaleEstimationMethod::UserSpecified", ScaleEstimationMethod::UserSpecified as i64, 2),
    ("ScaleEstimationMethod::GridAtReferencePoint", ScaleEstimationMethod::GridAtReferencePoint as i64, 3),
    ("ScaleEstimationMethod::Prismoidal", ScaleEstimationMethod::Prismoidal as i64, 4),
    ("ShadeEdgeMode::FacesShadedEdgeNotHighlighted", ShadeEdgeMode::FacesShadedEdgeNotHighlighted as i64, 0),
    ("ShadeEdgeMode::FacesShadedEdgesHighlightedInBlack", ShadeEdgeMode::FacesShadedEdgesHighlightedInBlack as i64, 1),
    ("ShadeEdgeMode::FacesNotFilledEdgesInEntityColor", ShadeEdgeMode::FacesNotFilledEdgesInEntityColor as i64, 2),
    ("ShadeEdgeMode::FacesInEntityColorEdgesInBlack", ShadeEdgeMode::FacesInEntityColorEdgesInBlack as i64, 3),
    ("ShadePlotMode::AsDisplayed", ShadePlotMode::AsDisplayed as i64, 0),
    ("ShadePlotMode::Wireframe", ShadePlotMode::Wireframe as i64, 1),
    ("ShadePlotMode::Hidden", ShadePlotMode::Hidden as i64, 2),
    ("ShadePlotMode::Rendered", ShadePlotMode::Rendered as i64, 3),
    ("ShadePlotResolutionLevel::Draft", ShadePlotResolutionLevel::Draft as i64, 0),
    ("ShadePlotResolutionLevel::Preview", ShadePlotResolutionLevel::Preview as i64, 1),
    ("ShadePlotResolutionLevel::Normal", ShadePlotResolutionLevel::Normal as i64, 2),
    ("ShadePlotResolutionLevel::Presentation", ShadePlotResolutionLevel::Presentation as i64, 3),
    ("ShadePlotResolutionLevel::Maximum", ShadePlotResolutionLevel::Maximum as i64, 4),
    ("ShadePlotResolutionLevel::Custom", ShadePlotResolutionLevel::Custom as i64, 5),
    ("ShadowMode::CastsAndReceivesShadows", ShadowMode::CastsAndReceivesShadows as i64, 0),
    ("ShadowMode::CastsShadows", ShadowMode::CastsShadows as i64, 1),
    ("ShadowMode::ReceivesShadows", ShadowMode::ReceivesShadows as i64, 2),
    ("ShadowMode::IgnoresShadows", ShadowMode::IgnoresShadows as i64, 3),
    ("ShadowType::RayTraced", ShadowType::RayTraced as i64, 0),
    ("ShadowType::ShadowMaps", ShadowType::ShadowMaps as i64, 1),
    ("SnapIsometricPlane::Left", SnapIsometricPlane::Left as i64, 0),
    ("SnapIsometricPlane::Top", SnapIsometricPlane::Top as i64, 1),
    ("SnapIsometricPlane::Right", SnapIsometricPlane::Right as i64, 2),
    ("SnapStyle::Standard", SnapStyle::Standard as i64, 0),
    ("SnapStyle::Isometric", SnapStyle::Isometric as i64, 1),
    ("SolidHistoryMode::None", SolidHistoryMode::None as i64, 0),
    ("SolidHistoryMode::DoesNotOverride", SolidHistoryMode::DoesNotOverride as i64, 1),
    ("SolidHistoryMode::Override", SolidHistoryMode::Override as i64, 2),
    ("StandardScale::ScaledToFit", StandardScale::ScaledToFit as i64, 0),
    ("StandardScale::Scale_1_128_inch_to_1_foot", StandardScale::Scale_1_128_inch_to_1_foot as i64, 1),
    ("StandardScale::Scale_1_64_inch_to_1_foot", StandardScale::Scale_1_64_inch_to_1_foot as i64, 2),
    ("StandardScale::Scale_1_32_inch_to_1_foot", StandardScale::Scale_1_32_inch_to_1_foot as i64, 3),
    ("StandardScale::Scale_1_16_inch_to_1_foot", StandardScale::Scale_1_16_inch_to_1_foot as i64, 4),
    ("StandardScale::Scale_3_32_inch_to_1_foot", StandardScale::Scale_3_32_inch_to_1_foot as i64, 5),
    ("StandardScale::Scale_1_8_inch_to_1_foot", StandardScale::Scale_1_8_inch_to_1_foot as i64, 6),
    ("StandardScale::Scale_3_16_inch_to_1_foot", StandardScale::Scale_3_16_inch_to_1_foot as i64, 7),
    ("StandardScale::Scale_1_4_inch_to_1_foot", StandardScale::Scale_1_4_inch_to_1_foot as i64, 8),
    ("StandardScale::Scale_3_8_inch_to_1_foot", StandardScale::Scale_3_8_inch_to_1_foot as i64, 9),
    ("StandardScale::Scale_1_2_inch_to_1_foot", StandardScale::Scale_1_2_inch_to_1_foot as i64, 10),
    ("StandardScale::Scale_3_4_inch_to_1_foot", StandardScale::Scale_3_4_inch_to_1_foot as i64, 11),
    ("StandardScale::Scale_1_inch_to_1_foot", StandardScale::Scale_1_inch_to_1_foot as i64, 12),
    ("StandardScale::Scale_3_inches_to_1_foot", StandardScale::Scale_3_inches_to_1_foot as i64, 13),
    ("StandardScale::Scale_6_inches_to_1_foot", StandardScale::Scale_6_inches_to_1_foot as i64, 14),
    ("StandardScale::Scale_1_foot_to_1_foot", StandardScale::Scale_1_foot_to_1_foot as i64, 15),
    ("StandardScale::Scale_1_to_1", StandardScale::Scale_1_to_1 as i64, 16),
    ("StandardScale::Scale_1_to_2", StandardScale::Scale_1_to_2 as i64, 17),
    ("StandardScale::Scale_1_to_4", StandardScale::Scale_1_to_4 as i64, 18),
    ("StandardScale::Scale_1_to_8", StandardScale::Scale_1_to_8 as i64, 19),
    ("StandardScale::Scale_1_to_10", StandardScale::Scale_1_to_10 as i64, 20),
    ("StandardScale::Scale_1_to_16", StandardScale::Scale_1_to_16 as i64, 21),
    ("StandardScale::Scale_1_to_20", StandardScale::Scale_1_to_20 as i64, 22),
    ("StandardScale::Scale_1_to_30", StandardScale::Scale_1_to_30 as i64, 23),
    ("StandardScale::Scale_1_to_40", StandardScale::Scale_1_to_40 as i64, 24),
    ("StandardScale::Scale_1_to_50", StandardScale::Scale_1_to_50 as i64, 25),
    ("StandardScale::Scale_1_to_100", StandardScale::Scale_1_to_100 as i64, 26),
    ("StandardScale::Scale_2_to_1", StandardScale::Scale_2_to_1 as i64, 27),
    ("StandardScale::Scale_4_to_1", StandardScale::Scale_4_to_1 as i64, 28),
    ("StandardScale::Scale_8_to_1", StandardScale::Scale_8_to_1 as i64, 29),
    ("StandardScale::Scale_10_to_1", StandardScale::Scale_10_to_1 as i64, 30),
    ("StandardScale::Scale_100_to_1", StandardScale::Scale_100_to_1 as i64, 31),
    ("StandardScale::Scale_1000_to_1", StandardScale::Scale_1000_to_1 as i64, 32),
    ("SubentityType::Edge", SubentityType::Edge as i64, 1),
    ("SubentityType::Face", SubentityType::Face as i64, 2),
    ("TextAttachmentDirection::Horizontal", TextAttachmentDirection::Horizontal as i64, 0),
    ("TextAttachmentDirection::Vertical", TextAttachmentDirection::Vertical as i64, 1),
    ("TextDirection::LeftToRight", TextDirection::LeftToRight as i64, 0),
    ("TextDirection::RightToLeft", TextDirection::RightToLeft as i64, 1),
    ("TextLineSpacingStyle::AtLeast", TextLineSpacingStyle::AtLeast as i64, 1),
    ("TextLineSpacingStyle::Exact", TextLineSpacingStyle::Exact as i64, 2),
    ("TileModeDescriptor::InTiledViewport", TileModeDescriptor::InTiledViewport as i64, 0),
    ("TileModeDescriptor::InNonTiledViewport", TileModeDescriptor::InNonTiledViewport as i64, 1),
    ("TileOrder::Hilbert", TileOrder::Hilbert as i64, 0),
    ("TileOrder::Spiral", TileOrder::Spiral as i64, 1),
    ("TileOrder::LeftToRight", TileOrder::LeftToRight as i64, 2),
    ("TileOrder::RightToLeft", TileOrder::RightToLeft as i64, 3),
    ("TileOrder::TopToBottom", TileOrder::TopToBottom as i64, 4),
    ("TileOrder::BottomToTop", TileOrder::BottomToTop as i64, 5),
    ("TopTextAttachmentDirection::Center", TopTextAttachmentDirection::Center as i64, 9),
    ("TopTextAttachmentDirection::OverlineAndCenter", TopTextAttachmentDirection::OverlineAndCenter as i64, 10),
    ("UcsOrthographicType::NotOrthographic", UcsOrthographicType::NotOrthographic as i64, 0),
    ("UcsOrthographicType::Top", UcsOrthographicType::Top as i64, 1),
    ("UcsOrthographicType::Bottom", UcsOrthographicType::Bottom as i64, 2),
    ("UcsOrthographicType::Front", UcsOrthographicType::Front as i64, 3),
    ("UcsOrthographicType::Back", UcsOrthographicType::Back as i64, 4),
    ("UcsOrthographicType::Left", UcsOrthographicType::Left as i64, 5),
    ("UcsOrthographicType::Right", UcsOrthographicType::Right as i64, 6),
    ("UnderlayFrameMode::None", UnderlayFrameMode::None as i64, 0),
    ("UnderlayFrameMode::DisplayAndPlot", UnderlayFrameMode::DisplayAndPlot as i64, 1),
    ("UnderlayFrameMode::DisplayNoPlot", UnderlayFrameMode::DisplayNoPlot as i64, 2),
    ("UnitFormat::Scientific", UnitFormat::Scientific as i64, 1),
    ("UnitFormat::Decimal", UnitFormat::Decimal as i64, 2),
    ("UnitFormat::Engineering", UnitFormat::Engineering as i64, 3),
    ("UnitFormat::ArchitecturalStacked", UnitFormat::ArchitecturalStacked as i64, 4),
    ("UnitFormat::FractionalStacked", UnitFormat::FractionalStacked as i64, 5),
    ("UnitFormat::Architectural", UnitFormat::Architectural as i64, 6),
    ("UnitFormat::Fractional", UnitFormat::Fractional as i64, 7),
    ("UnitZeroSuppression::SuppressZeroFeetAndZeroInches", UnitZeroSuppression::SuppressZeroFeetAndZeroInches as i64, 0),
    ("UnitZeroSuppression::IncludeZeroFeetAndZeroInches", UnitZeroSuppression::IncludeZeroFeetAndZeroInches as i64, 1),
    ("UnitZeroSuppression::IncludeZeroFeetAndSuppressZeroInches", UnitZeroSuppression::IncludeZeroFeetAndSuppressZeroInches as i64, 2),
    ("UnitZeroSuppression::IncludeZeroInchesAndSuppressZeroFeet", UnitZeroSuppression::IncludeZeroInchesAndSuppressZeroFeet as i64, 3),
    ("Units::Unitless", Units::Unitless as i64, 0),
    ("Units::Inches", Units::Inches as i64, 1),
    ("Units::Feet", Units::Feet as i64, 2),
    ("Units::Miles", Units::Miles as i64, 3),
    ("Units::Millimeters", Units::Millimeters as i64, 4),
    ("Units::Centimeters", Units::Centimeters as i64, 5),
    ("Units::Meters", Units::Meters as i64, 6),
    ("Units::Kilometers", Units::Kilometers as i64, 7),
    ("Units::Microinches", Units::Microinches as i64, 8),
    ("Units::Mils", Units::Mils as i64, 9),
    ("Units::Yards", Units::Yards as i64, 10),
    ("Units::Angstroms", Units::Angstroms as i64, 11),
    ("Units::Nanometers", Units::Nanometers as i64, 12),
    ("Units::Microns", Units::Microns as i64, 13),
    ("Units::Decimeters", Units::Decimeters as i64, 14),
    ("Units::Decameters", Units::Decameters as i64, 15),
    ("Units::Hectometers", Units::Hectometers as i64, 16),
    ("Units::Gigameters", Units::Gigameters as i64, 17),
    ("Units::AstronomicalUnits", Units::AstronomicalUnits as i64, 18),
    ("Units::LightYears", Units::LightYears as i64, 19),
    ("Units::Parsecs", Units::Parsecs as i64, 20),
    ("Units::USSurveyFeet", Units::USSurveyFeet as i64, 21),
    ("Units::USSurveyInch", Units::USSurveyInch as i64, 22),
    ("Units::USSurveyYard", Units::USSurveyYard as i64, 23),
    ("Units::USSurveyMile", Units::USSurveyMile as i64, 24),
    ("Version::R2010", Version::R2010 as i64, 0),
    ("VerticalTextJustification::Baseline", VerticalTextJustification::Baseline as i64, 0),
    ("VerticalTextJustification::Bottom", VerticalTextJustification::Bottom as i64, 1),
    ("VerticalTextJustification::Middle", VerticalTextJustification::Middle as i64, 2),
    ("VerticalTextJustification::Top", VerticalTextJustification::Top as i64, 3),
    ("ViewRenderMode::Classic2D", ViewRenderMode::Classic2D as i64, 0),
    ("ViewRenderMode::Wireframe", ViewRenderMode::Wireframe as i64, 1),
    ("ViewRenderMode::HiddenLine", ViewRenderMode::HiddenLine as i64, 2),
    ("ViewRenderMode::FlatShaded", ViewRenderMode::FlatShaded as i64, 3),
    ("ViewRenderMode::GouraudShaded", ViewRenderMode::GouraudShaded as i64, 4),
    ("ViewRenderMode::FlatShadedWithWireframe", ViewRenderMode::FlatShadedWithWireframe as i64, 5),
    ("ViewRenderMode::GouraudShadedWithWireframe", ViewRenderMode::GouraudShadedWithWireframe as i64, 6),
    ("XrefClippingBoundaryVisibility::NotDisplayedNotPlotted", XrefClippingBoundaryVisibility::NotDisplayedNotPlotted as i64, 0),
    ("XrefClippingBoundaryVisibility::DisplayedAndPlotted", XrefClippingBoundaryVisibility::DisplayedAndPlotted as i64, 1),
    ("XrefClippingBoundaryVisibility::DisplayedNotPlotted", XrefClippingBoundaryVisibility::DisplayedNotPlotted as i64, 2),
];
/// header variable, code, numbers of its variants, number it takes for an unknown one
pub static HDR: &[(&str, u32, &[i64], i64)] = &[
    ("$ATTMODE", 70, &[0, 1, 2], 1),
    ("$DIMZIN", 70, &[0, 1, 2, 3], 0),
    ("$DIMJUST", 70, &[0, 1, 2, 3, 4], 0),
    ("$DIMTOLJ", 70, &[0, 1, 2], 1),
    ("$DIMTZIN", 70, &[0, 1, 2, 3], 0),
    ("$DIMALTZ", 70, &[0, 1, 2, 3], 0),
    ("$DIMALTTZ", 70, &[0, 1, 2, 3], 0),
    ("$DIMALTU", 70, &[1, 2, 3, 4, 5, 6, 7], 2),
    ("$DIMAUNIT", 70, &[0, 1, 2, 3, 4], 0),
    ("$DIMAZIN", 70, &[0, 1, 2, 3], 0),
    ("$DIMATFIT", 70, &[0, 1, 2, 3], 3),
    ("$DIMFRAC", 70, &[0, 1, 2], 0),
    ("$DIMLUNIT", 70, &[1, 2, 3, 4, 5, 6], 2),
    ("$DIMTMOVE", 70, &[0, 1, 2], 0),
    ("$DIMTFILL", 70, &[0, 1, 2], 0),
    ("$DIMARCSYM", 70, &[0, 1, 2], 0),
    ("$DIMTXTDIRECTION", 70, &[0, 1], 0),
    ("$LUNITS", 70, &[1, 2, 3, 4, 5, 6, 7], 2),
    ("$AUNITS", 70, &[0, 1, 2, 3, 4], 0),
    ("$SKPOLY", 70, &[0, 1], 0),
    ("$ANGDIR", 70, &[0, 1], 0),
    ("$SPLINETYPE", 70, &[0, 5, 6, 8], 6),
    ("$SURFTYPE", 70, &[0, 5, 6, 8], 6),
    ("$UCSORTHOVIEW", 70, &[0, 1, 2, 3, 4, 5, 6], 0),
    ("$PUCSORTHOVIEW", 70, &[0, 1, 2, 3, 4, 5, 6], 0),
    ("$SHADEDGE", 70, &[0, 1, 2, 3], 3),
    ("$CMLJUST", 70, &[0, 1, 2], 0),
    ("$MEASUREMENT", 70, &[0, 1], 0),
    ("$ENDCAPS", 280, &[0, 1, 2, 3], 0),
    ("$JOINSTYLE", 280, &[0, 1, 2, 3], 0),
    ("$INSUNITS", 70, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24], 0),
    ("$CEPSNTYPE", 380, &[0, 1, 2, 3], 0),
    ("$INDEXCTL", 280, &[0, 1, 2, 3], 0),
    ("$XCLIPFRAME", 280, &[0, 1, 2], 2),
    ("$OBSLTYPE", 280, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 0),
    ("$DIMASSOC", 280, &[0, 1, 2], 1),
    ("$3DDWFPREC", 40, &[1, 2, 3, 4, 5, 6], 2),
    ("$LOFTNORMALS", 280, &[0, 1, 2, 3, 4, 5, 6], 1),
    ("$TIMEZONE", 70, &[-12000, -11000, -10000, -9000, -8000, -7000, -7002, -6000, -6001, -6002, -6003, -5000, -5001, -5002, -4000, -4001, -4002, -3300, -3000, -3001, -3002, -2000, -1000, -1001, 0, 1, 2, 1000, 1001, 1002, 1003, 1004, 2000, 2001, 2002, 2003, 2004, 2005, 3000, 3001, 3002, 3003, 3300, 4000, 4001, 4300, 5000, 5001, 5300, 5450, 6000, 6001, 6002, 6300, 7000, 7001, 8000, 8001, 8002, 8003, 8004, 9000, 9001, 9002, 9300, 9301, 10000, 10001, 10002, 10003, 10004, 11000, 12000, 12001, 13000], -8000),
    ("$SHOWHIST", 280, &[0, 1, 2], 1),
    ("$DWFFRAME", 280, &[0, 1, 2], 2),
    ("$DGNFRAME", 280, &[0, 1, 2], 0),
    ("$CSHADOW", 280, &[0, 1, 2, 3], 0),
];
