// Generated by tools/gen_harness.py; do not edit.
use crate::sym::*;
use dxf::enums::*;
sy_enum!(Dwf3DPrecision: Deviation_1, Deviation_0_5, Deviation_0_2, Deviation_0_1, Deviation_0_01, Deviation_0_001);
sy_enum!(AngleDirection: CounterClockwise, Clockwise);
sy_enum!(AngleFormat: DecimalDegrees, DegreesMinutesSeconds, Gradians, Radians, SurveyorsUnits);
sy_enum!(AttachmentPoint: TopLeft, TopCenter, TopRight, MiddleLeft, MiddleCenter, MiddleRight, BottomLeft, BottomCenter, BottomRight);
sy_enum!(AttributeVisibility: None, Normal, All);
sy_enum!(BackgroundFillSetting: Off, UseBackgroundFillColor, UseDrawingWindowColor);
sy_enum!(BottomTextAttachmentDirection: Center, UnderlineAndCenter);
sy_enum!(CoordinateDisplay: Static, ContinuousUpdate, DistanceAngleFormat);
sy_enum!(DefaultLightingType: OneDistantLight, TwoDistantLights);
sy_enum!(DesignCoordinateType: Unknown, LocalGrid, ProjectedGrid, Geographic);
sy_enum!(DiagnosticBSPMode: Depth, Size);
sy_enum!(DiagnosticPhotonMode: Density, Irradiance);
sy_enum!(DictionaryDuplicateRecordHandling: NotApplicable, KeepExisting, UseClone, UpdateXrefAndName, UpdateName, UnmangleName);
sy_enum!(DimensionArcSymbolDisplayMode: SymbolBeforeText, SymbolAboveText, Suppress);
sy_enum!(DimensionAssociativity: NoAssociationExploded, NonAssociativeObjects, AssociativeObjects);
sy_enum!(DimensionFit: TextAndArrowsOutsideLines, MoveArrowsFirst, MoveTextFirst, MoveEitherForBestFit);
sy_enum!(DimensionFractionFormat: HorizontalStacking, DiagonalStacking, NotStacked);
sy_enum!(DimensionTextBackgroundColorMode: None, UseDrawingBackground, Custom);
sy_enum!(DimensionTextJustification: AboveLineCenter, AboveLineNextToFirstExtension, AboveLineNextToSecondExtension, AboveLineCenteredOnFirstExtension, AboveLineCenteredOnSecondExtension);
sy_enum!(DimensionTextMovementRule: MoveLineWithText, AddLeaderWhenTextIsMoved, MoveTextFreely);
sy_enum!(DimensionType: RotatedHorizontalOrVertical, Aligned, Angular, Diameter, Radius, AngularThreePoint, Ordinate);
sy_enum!(DragMode: Off, On, Auto);
sy_enum!(DrawingDirection: LeftToRight, TopToBottom, ByStyle);
sy_enum!(DrawingUnits: English, Metric);
sy_enum!(EdgeStyleModel: NoEdges, IsoLines, FacetEdges);
sy_enum!(EndCapSetting: None, Round, Angle, Square);
sy_enum!(FaceColorMode: NoColor, ObjectColor, BackgroundColor, CustomColor, MonoColor, Tinted, Desaturated);
sy_enum!(FaceLightingModel: Invisible, Visible, Phong, Gooch);
sy_enum!(FaceLightingQuality: None, PerFace, PerVertex);
sy_enum!(FaceModifier: None, Opacity, Specular);
sy_enum!(FlowDirection: Down, Up);
sy_enum!(FontType: TTF, SHX);
sy_enum!(GeoDataVersion: R2009, R2010);
sy_enum!(HelixConstraint: ConstrainTurnHeight, ConstrainTurns, ConstrainHeight);
sy_enum!(HorizontalTextJustification: Left, Center, Right, Aligned, Middle, Fit);
sy_enum!(ImageClippingBoundaryType: Rectangular, Polygonal);
sy_enum!(ImageResolutionUnits: NoUnits, Centimeters, Inches);
sy_enum!(JoinStyle: None, Round, Angle, Flat);
sy_enum!(Justification: Top, Middle, Bottom);
sy_enum!(LayerAndSpatialIndexSaveMode: None, LayerIndex, SpatialIndex, LayerAndSpatialIndex);
sy_enum!(LeaderCreationAnnotationType: WithTextAnnotation, WithToleranceAnnotation, WithBlockReferenceAnnotation, NoAnnotation);
sy_enum!(LeaderHooklineDirection: OppositeFromHorizontalVector, SameAsHorizontalVector);
sy_enum!(LeaderPathType: StraightLineSegments, Spline);
sy_enum!(LightAttenuationType: None, InverseLinear, InverseSquare);
sy_enum!(LightType: Distant, Point, Spot);
sy_enum!(LineTypeStyle: Off, Solid, Dashed, Dotted, ShortDash, MediumDash, LongDash, DoubleShortDash, DoubleMediumDash, DoubleLongDash, MediumLongDash, SparseDot);
sy_enum!(LoftedObjectNormalMode: Ruled, SmoothFit, StartCrossSection, EndCrossSection, StartAndEndCrossSections, AllCrossSections, UseDraftAngleAndMagnitude);
sy_enum!(MapAutoTransformMethod: NoAutoTransform, ScaleToCurrentEntity, IncludeCurrentBlockTransform);
sy_enum!(MapProjectionMethod: Planar, Box, Cylinder, Sphere);
sy_enum!(MapTilingMethod: Tile, Crop, Clamp);
sy_enum!(MTextFlag: MultilineAttribute, ConstantMultilineAttributeDefinition);
sy_enum!(MTextLineSpacingStyle: AtLeast, Exact);
sy_enum!(NonAngularUnits: Scientific, Decimal, Engineering, Architectural, Fractional, WindowsDesktop);
sy_enum!(ObjectOsnapType: None, Endpoint, Midpoint, Center, Node, Quadrant, Intersection, Insertion, Perpendicular, Tangent, Nearest, ApparentIntersection, Parallel, StartPoint);
sy_enum!(OleObjectType: Link, Embedded, Static);
sy_enum!(OrthographicViewType: None, Top, Bottom, Front, Back, Left, Right);
sy_enum!(PickStyle: None, Group, AssociativeHatch, GroupAndAssociativeHatch);
sy_enum!(PlotPaperUnits: Inches, Millimeters, Pixels);
sy_enum!(PlotRotation: NoRotation, CounterClockwise90Degrees, UpsideDown, Clockwise90Degrees);
sy_enum!(PlotStyle: ByLayer, ByBlock, ByDictionaryDefault, ByObjectId);
sy_enum!(PlotType: LastScreenDisplay, DrawingExtents, DrawingLimits, SpecificView, SpecificWindow, LayoutInformation);
sy_enum!(PolylineCurvedAndSmoothSurfaceType: None, QuadraticBSpline, CubicBSpline, Bezier);
sy_enum!(PolySketchMode: SketchLines, SketchPolylines);
sy_enum!(RasterImageUnits: None, Millimeter, Centimeter, Meter, Kilometer, Inch, Foot, Yard, Mile);
sy_enum!(RenderAccuracy: Low, Draft, High);
sy_enum!(RenderDestination: RenderWindow, Viewport);
sy_enum!(RenderDiagnosticGridMode: Object, World, Camera);
sy_enum!(RenderDiagnosticMode: Off, Grid, Photon, BSP);
sy_enum!(RenderDuration: ByTime, ByLevel, UntilSatisfactory);
sy_enum!(RenderProcedure: View, Crop, Selection);
sy_enum!(RenderShadowMode: Simple, Sort, Segment);
sy_enum!(RotatedDimensionType: Parallel, Perpendicular);
sy_enum!(SamplingFilterType: Box, Triangle, Gauss, Mitchell, Lanczos);
sy_enum!(ScaleEstimationMethod: None, UserSpecified, GridAtReferencePoint, Prismoidal);
sy_enum!(ShadeEdgeMode: FacesShadedEdgeNotHighlighted, FacesShadedEdgesHighlightedInBlack, FacesNotFilledEdgesInEntityColor, FacesInEntityColorEdgesInBlack);
sy_enum!(ShadePlotMode: AsDisplayed, Wireframe, Hidden, Rendered);
sy_enum!(ShadePlotResolutionLevel: Draft, Preview, Normal, Presentation, Maximum, Custom);
sy_enum!(ShadowMode: CastsAndReceivesShadows, CastsShadows, ReceivesShadows, IgnoresShadows);
sy_enum!(ShadowType: RayTraced, ShadowMaps);
sy_enum!(SnapIsometricPlane: Left, Top, Right);
sy_enum!(SnapStyle: Standard, Isometric);
sy_enum!(SolidHistoryMode: None, DoesNotOverride, Override);
sy_enum!(StandardScale: ScaledToFit, Scale_1_128_inch_to_1_foot, Scale_1_64_inch_to_1_foot, Scale_1_32_inch_to_1_foot, Scale_1_16_inch_to_1_foot, Scale_3_32_inch_to_1_foot, Scale_1_8_inch_to_1_foot, Scale_3_16_inch_to_1_foot, Scale_1_4_inch_to_1_foot, Scale_3_8_inch_to_1_foot, Scale_1_2_inch_to_1_foot, Scale_3_4_inch_to_1_foot, Scale_1_inch_to_1_foot, Scale_3_inches_to_1_foot, Scale_6_inches_to_1_foot, Scale_1_foot_to_1_foot, Scale_1_to_1, Scale_1_to_2, Scale_1_to_4, Scale_1_to_8, Scale_1_to_10, Scale_1_to_16, Scale_1_to_20, Scale_1_to_30, Scale_1_to_40, Scale_1_to_50, Scale_1_to_100, Scale_2_to_1, Scale_4_to_1, Scale_8_to_1, Scale_10_to_1, Scale_100_to_1, Scale_1000_to_1);
sy_enum!(SubentityType: Edge, Face);
sy_enum!(TextAttachmentDirection: Horizontal, Vertical);
sy_enum!(TextDirection: LeftToRight, RightToLeft);
sy_enum!(TextLineSpacingStyle: AtLeast, Exact);
sy_enum!(TileModeDescriptor: InTiledViewport, InNonTiledViewport);
sy_enum!(TileOrder: Hilbert, Spiral, LeftToRight, RightToLeft, TopToBottom, BottomToTop);
sy_enum!(UcsOrthographicType: NotOrthographic, Top, Bottom, Front, Back, Left, Right);
sy_enum!(DrawingTimeZone: InternationalDateLineWest, MidwayIsland_Samoa, Hawaii, Alaska, PacificTime_US_Canada_SanFrancisco_Vancouver, Arizona, Mazatlan, CentralAmerica, CentralTime_US_Canada, Guadalajara_MexicoCity_Monterrey, Saskatchewan, EasternTime_US_Canada_, Indiana_East_, Bogota_Lima_Quito, AtlanticTime_Canada_, Caracas_LaPaz, Santiago, Newfoundland, Brasilia, BuenosAires_Georgetown, Greenland, MidAtlantic, Azores, CapeVerdeIs, UniversalCoordinatedTime, GreenwichMeanTime, Casablanca_Monrovia, Amsterdam_Berlin_Bern_Rome_Stockholm, Brussels_Madrid_Copenhagen_Paris, Belgrade_Bratislava_Budapest_Ljubljana_Prague, Sarajevo_Skopje_Warsaw_Zagreb, WestCentralAfrica, Athens_Beirut_Istanbul_Minsk, Bucharest, Cairo, Harare_Pretoria, Helsinki_Kyiv_Sofia_Talinn_Vilnius, Jerusalem, Moscow_StPetersburg_Volograd, Kuwait_Riyadh, Baghdad, Nairobi, Tehran, AbuDhabi_Muscat, Baku_Tbilisi_Yerevan, Kabul, Ekaterinburg, Islamabad_Karachi_Tashkent, Chennai_Kolkata_Mumbai_NewDelhi, Kathmandu, Almaty_Novosibirsk, Astana_Dhaka, SriJayawardenepura, Rangoon, Bangkok_Hanoi_Jakarta, Krasnoyarsk, Beijing_Chongqing_HongKong_Urumqi, KualaLumpur_Singapore, Taipei, Irkutsk_UlaanBataar, Perth, Osaka_Sapporo_Tokyo, Seoul, Yakutsk, Adelaide, Darwin, Canberra_Melbourne_Sydney, Guam_PortMoresby, Brisbane, Hobart, Vladivostok, Magadan_SolomonIs_NewCaledonia, Auckland_Wellington, Fiji_Kamchatka_MarshallIs, Nukualofa_Tonga);
sy_enum!(TopTextAttachmentDirection: Center, OverlineAndCenter);
sy_enum!(UnderlayFrameMode: None, DisplayAndPlot, DisplayNoPlot);
sy_enum!(UnitFormat: Scientific, Decimal, Engineering, ArchitecturalStacked, FractionalStacked, Architectural, Fractional);
sy_enum!(Units: Unitless, Inches, Feet, Miles, Millimeters, Centimeters, Meters, Kilometers, Microinches, Mils, Yards, Angstroms, Nanometers, Microns, Decimeters, Decameters, Hectometers, Gigameters, AstronomicalUnits, LightYears, Parsecs, USSurveyFeet, USSurveyInch, USSurveyYard, USSurveyMile);
sy_enum!(ViewRenderMode: Classic2D, Wireframe, HiddenLine, FlatShaded, GouraudShaded, FlatShadedWithWireframe, GouraudShadedWithWireframe);
sy_enum!(Version: R2010);
sy_enum!(VerticalTextJustification: Baseline, Bottom, Middle, Top);
sy_enum!(XrefClippingBoundaryVisibility: NotDisplayedNotPlotted, DisplayedAndPlotted, DisplayedNotPlotted);
sy_enum!(UnitZeroSuppression: SuppressZeroFeetAndZeroInches, IncludeZeroFeetAndZeroInches, IncludeZeroFeetAndSuppressZeroInches, IncludeZeroInchesAndSuppressZeroFeet);
