------------------------------- MODULE DocInfo -------------------------------
(* What the document information says about a metadata document (P27).

   A metadata document is a tree of elements [n |-> name, a |-> << <<attribute, value>> >>, v |-> value, c |-> children].
   A value is what the text of the element means: k = "s" text s, "d" the decimal number m * 10^x, "i" the integer i, "b" the
   boolean b, "c" the colour rgb, "r" a list of ranges, "l" a list of numbers, "t" a date, "e" no text, "j" text of no meaning for a number.
   Each class of information is a table of the elements it is made of; every field of the answer is a function of the
   element of that name below the element of the class, and of nothing else. *)
EXTENDS Integers, Sequences, FiniteSets
(* ---- tables: <<element name, kind>> ---- *)
TDocument == << <<"Name","s">>, <<"Title","s">>, <<"UserName","s">>, <<"Description","s">>, <<"Comment","s">>, <<"Keywords","s">>, <<"Rating","i">>, <<"CreationDate","s">> >>
TChannel == <<
    <<"ChannelType","ChannelTypeE">>, <<"ChannelUnit","s">>, <<"PixelType","PixelTypeE">>, <<"ComponentBitCount","i">>, <<"AcquisitionMode","AcquisitionModeE">>,
    <<"IlluminationType","IlluminationTypeE">>, <<"ContrastMethod","ContrastMethodE">>, <<"IlluminationWavelength","spec">>, <<"DetectionWavelength","spec">>,
    <<"ExcitationWavelength","d">>, <<"EmissionWavelength","d">>, <<"EffectiveNA","d">>, <<"DyeId","s">>, <<"DyeDatabaseId","s">>, <<"PinholeSize","d">>,
    <<"PinholeSizeAiry","d">>, <<"PinholeGeometry","PinholeGeometryE">>, <<"Fluor","s">>, <<"NDFilter","d">>, <<"PockelCellSetting","i">>, <<"Color","color">>,
    <<"ExposureTime","exp">>, <<"DepthOfFocus","d">>, <<"SectionThickness","d">>, <<"DetectorSettings","@Detector">>, <<"LightSourcesSettings","*LightSource">>,
    <<"LightPath","@LightPath">>, <<"LaserScanInfo","@LaserScan">>, <<"SPIMIlluminationSettings","@Spim">>, <<"SPIMDetectionSettings","@SpimDet">>,
    <<"SIMSettings","@Sim">>, <<"PolarizingSettings","@Polarizing">>, <<"AiryscanSettings","@Airyscan">>, <<"Reflector","s">>, <<"CondenserContrast","s">>,
    <<"NACondenser","d">>, <<"Ratio","@Ratio">> >>
TDetector == <<
    <<"Detector","ref">>, <<"Binning","BinningE">>, <<"Shutter","ShutterE">>, <<"PhotonConversionFactor","d">>, <<"Gain","d">>, <<"DigitalGain","d">>, <<"Offset","d">>,
    <<"EMGain","d">>, <<"Voltage","d">>, <<"ReadOutRate","d">>, <<"UseBrightnessContrastCorrection","b">>, <<"PixelMaximum","d">>, <<"PixelAccuracy","d">>,
    <<"PixelScaleFactor","d">>, <<"CameraProcessingMode","CameraProcessingModeE">> >>
TLightSource == <<
    <<"LightSource","ref">>, <<"Wavelength","d">>, <<"Attenuation","d">>, <<"Transmission","d">>, <<"Intensity","s">>, <<"FlashDuration","d">>, <<"TIRFAngle","d">>,
    <<"TIRFDepthOfPenetration","d">>, <<"IsTIRFCalibrated","b">>, <<"IsNlo","b">>, <<"Polarization","@Polarization">> >>
TPolarization == << <<"StokesParameter1","d">>, <<"StokesParameter2","d">>, <<"StokesParameter3","d">>, <<"StokesParameter4","d">> >>
TLightPath == << <<"ExcitationFilter","ref">>, <<"Dichroic","ref">>, <<"EmissionFilter","ref">> >>
TLaserScan == <<
    <<"PixelTime","d">>, <<"LineTime","d">>, <<"FrameTime","d">>, <<"Averaging","i">>, <<"ScanningMode","ScanningModeE">>, <<"SampleRotation","d">>, <<"SampleOffsetX","d">>,
    <<"SampleOffsetY","d">>, <<"ScanDirection","ScanDirectionE">>, <<"ZoomX","d">>, <<"ZoomY","d">>, <<"ZoomZ","d">>, <<"CropOffset","d">>, <<"LaserAttenuatorMeas","d">>,
    <<"LaserBlanking","d">>, <<"LaserAttenuatorBleach","d">>, <<"LineStep","u">>, <<"ScanSpeed","i">>, <<"AveragingMethod","AveragingMethodE">>,
    <<"AveragingMode","AveragingModeE">>, <<"LaserAttenuatorState","AttenuatorStateE">> >>
TSpim == << <<"NALightSheet","d">>, <<"BeamType","BeamTypeE">>, <<"CylinderLensRef","ref">>, <<"IlluminationObjectiveSettings","@Objective">>,
    <<"ResonanceScannerSettings","@Resonance">>, <<"GalvoScannerSettings","@Galvo">> >>
TObjective == << <<"ObjectiveRef","ref">>, <<"Medium","MediumE">>, <<"CorrectionCollar","d">>, <<"CorrectionCollar2","d">>, <<"CorrectionControllerMode","s">>,
    <<"CorrectionControllerBottomThickness","d">>, <<"CorrectionControllerImagingDepth","d">>, <<"RefractiveIndex","d">> >>
TResonance == << <<"Amplitude","d">> >>
TGalvo == << <<"AmplitudeYScan","d">>, <<"Frequency","d">>, <<"Offset1Left","d">>, <<"Offset1Right","d">>, <<"Offset2Left","d">>, <<"Offset2Right","d">> >>
TSpimDet == << <<"NADetection","d">> >>
TSim == << <<"SIMDeviceRef","ref">>, <<"GratingPeriod","d">>, <<"GratingRotation","d">>, <<"GridDescription","s">>, <<"Reflector","s">>, <<"FilterSetRef","ref">>,
    <<"DiffractionEfficiency1","d">>, <<"DiffractionEfficiency2","d">>, <<"DiffractionEfficiency3","d">> >>
TPolarizing == << <<"PolarizerAngle","d">>, <<"AnalyzerAngle","d">> >>
TAiryscan == << <<"Mode","AiryModeE">>, <<"VirtualPinholeSize","d">>, <<"Magnification","d">>, <<"TransformationXX","d">>, <<"TransformationXY","d">>,
    <<"TransformationYX","d">>, <<"TransformationYY","d">>, <<"FastAiryScanSettings","@FastAiry">> >>
TFastAiry == << <<"IlluminationLinePixels","d2">>, <<"IlluminationLine","d2">>, <<"FiberMapping","ilist">>, <<"EffectiveNA_in_x","d">>, <<"EffectiveNA_in_y","d">> >>
TRatio == << <<"Type","RatioTypeE">>, <<"Const1","d">>, <<"Const2","d">>, <<"Const3","d">>, <<"Const4","d">>, <<"Const5","d">>, <<"Const6","d">>,
    <<"Source1","refs">>, <<"Source2","refs">> >>
TZ == << <<"StartPosition","d">>, <<"XYZHandedness","HandednessE">>, <<"ZAxisDirection","ZAxisE">>, <<"ZDriveMode","ZDriveModeE">>, <<"ZDriveSpeed","d">>, <<"Positions","pos">> >>
TT == << <<"StartTime","date">>, <<"Positions","pos">> >>
TDistance == << <<"Value","d">>, <<"DefaultUnitFormat","s">> >>
(* the part of it that the C interface reports; enumeration values ("c...E") and dates are texts there *)
CChannel == <<
    <<"ChannelType","cChannelTypeE">>, <<"ChannelUnit","s">>, <<"PixelType","cPixelTypeE">>, <<"ComponentBitCount","i">>, <<"AcquisitionMode","cAcquisitionModeE">>,
    <<"IlluminationType","cIlluminationTypeE">>, <<"ContrastMethod","cContrastMethodE">>, <<"IlluminationWavelength","spec">>, <<"DetectionWavelength","spec">>,
    <<"ExcitationWavelength","d">>, <<"EmissionWavelength","d">>, <<"EffectiveNA","d">>, <<"DyeId","s">>, <<"DyeDatabaseId","s">>, <<"PinholeSize","d">>,
    <<"PinholeSizeAiry","d">>, <<"PinholeGeometry","cPinholeGeometryE">>, <<"Fluor","s">>, <<"NDFilter","d">>, <<"PockelCellSetting","i">>, <<"Color","color">>,
    <<"ExposureTime","exp">>, <<"DepthOfFocus","d">>, <<"SectionThickness","d">>, <<"Reflector","s">>, <<"CondenserContrast","s">>, <<"NACondenser","d">> >>
CZTab == << <<"StartPosition","d">>, <<"XYZHandedness","cHandednessE">>, <<"ZAxisDirection","cZAxisE">>, <<"ZDriveMode","cZDriveModeE">>, <<"ZDriveSpeed","d">>, <<"Positions","pos">> >>
CTTab == << <<"StartTime","cdate">>, <<"Positions","pos">> >>
Table(c) == CASE c = "ChannelC" -> CChannel [] c = "ZC" -> CZTab [] c = "TC" -> CTTab [] c = "Document" -> TDocument [] c = "Channel" -> TChannel [] c = "Detector" -> TDetector [] c = "LightSource" -> TLightSource [] c = "Polarization" -> TPolarization
    [] c = "LightPath" -> TLightPath [] c = "LaserScan" -> TLaserScan [] c = "Spim" -> TSpim [] c = "Objective" -> TObjective [] c = "Resonance" -> TResonance [] c = "Galvo" -> TGalvo
    [] c = "SpimDet" -> TSpimDet [] c = "Sim" -> TSim [] c = "Polarizing" -> TPolarizing [] c = "Airyscan" -> TAiryscan [] c = "FastAiry" -> TFastAiry [] c = "Ratio" -> TRatio
    [] c = "Z" -> TZ [] c = "T" -> TT [] c = "Distance" -> TDistance
(* ---- enumerations: names in the order of the documented enumeration values ---- *)
EChannelTypeE == << "Heightmap", "PalHR", "PalWidefield", "SimHR", "SimWidefield", "SimDWF", "AiryScanSum", "AiryScanRawSr", "AiryScanRaw", "AiryScanSr", "AiryScanVp", "AiryScanMb",
    "AiryScanRingSheppardSum", "OnlineUnmixing", "Unspecified" >>
EAcquisitionModeE == << "WideField", "LaserScanningConfocalMicroscopy", "SpinningDiskConfocal", "SlitScanConfocal", "MultiPhotonMicroscopy", "StructuredIllumination",
    "SingleMoleculeImaging", "TotalInternalReflection", "FluorescenceLifetime", "SpectralImaging", "FluorescenceCorrelationSpectroscopy", "NearFieldScanningOpticalMicroscopy",
    "SecondHarmonicGenerationImaging", "PALM", "STORM", "STED", "TIRF", "FSM", "LCM", "SPIM", "SEM", "FIB", "FIB-SEM", "ApertureCorrelation", "Other" >>
EIlluminationTypeE == << "Transmitted", "Epifluorescence", "Oblique", "NonLinear", "Other" >>
EContrastMethodE == << "Brightfield", "Phase", "DIC", "HoffmanModulation", "ObliqueIllumination", "PolarizedLight", "Darkfield", "Fluorescence", "MultiPhotonFluorescence", "Other" >>
EPinholeGeometryE == << "Circular", "Rectangular", "Other" >>
EPixelTypeE == << "Gray8", "Gray16", "Gray32Float", "Bgr24", "Bgr48", "?5", "?6", "?7", "Bgr96Float", "Bgra32", "Gray64ComplexFloat", "Bgr192ComplexFloat", "Gray32", "Gray64Float" >>
EBinningE == << "1x1", "2x2", "4x4", "8x8", "Other" >>
EShutterE == << "Rolling", "Global", "Other" >>
ECameraProcessingModeE == << "None", "Widefield", "Sectioned", "RawDataMode" >>
EScanningModeE == << "Frame", "FastFrame", "LineSequential", "Line", "Spot", "Other" >>
EScanDirectionE == << "Bidirectional", "Unidirectional" >>
EAveragingMethodE == << "Mean", "Sum", "Other" >>
EAveragingModeE == << "Frame", "Line", "Other" >>
EAttenuatorStateE == << "On", "Off" >>
EBeamTypeE == << "Gauss", "Bessel", "Other" >>
EMediumE == << "Air", "Oil", "Water", "Glycerol", "Other" >>
EAiryModeE == << "SuperResolution", "VirtualPinhole", "MultiBeam", "Off" >>
ERatioTypeE == << "NoOnlineCalculation", "OnlineRatio", "OnlineSubtraction", "OnlineSubtractionRatio", "OnlineHillFunction", "OnlineReferenceRatio", "OnlineLinearUnmixing" >>
EHandednessE == << "LeftHanded", "RightHanded", "Undefined" >>
EZAxisE == << "FromSpecimenToObjective", "FromObjectiveToSpecimen", "Undefined" >>
EZDriveModeE == << "Continuous", "Step" >>
Enum(k) == CASE k = "ChannelTypeE" -> EChannelTypeE [] k = "AcquisitionModeE" -> EAcquisitionModeE [] k = "IlluminationTypeE" -> EIlluminationTypeE [] k = "ContrastMethodE" -> EContrastMethodE
    [] k = "PinholeGeometryE" -> EPinholeGeometryE [] k = "PixelTypeE" -> EPixelTypeE [] k = "BinningE" -> EBinningE [] k = "ShutterE" -> EShutterE
    [] k = "CameraProcessingModeE" -> ECameraProcessingModeE [] k = "ScanningModeE" -> EScanningModeE [] k = "ScanDirectionE" -> EScanDirectionE [] k = "AveragingMethodE" -> EAveragingMethodE
    [] k = "AveragingModeE" -> EAveragingModeE [] k = "AttenuatorStateE" -> EAttenuatorStateE [] k = "BeamTypeE" -> EBeamTypeE [] k = "MediumE" -> EMediumE [] k = "AiryModeE" -> EAiryModeE
    [] k = "RatioTypeE" -> ERatioTypeE [] k = "HandednessE" -> EHandednessE [] k = "ZAxisE" -> EZAxisE [] k = "ZDriveModeE" -> EZDriveModeE [] OTHER -> << >>
(* the texts of the C interface *)
CHandedness == << "left_handed", "right_handed", "undefined" >>
CZAxis == << "from_specimen_to_objective", "from_objective_to_specimen", "undefined" >>
CZDriveMode == << "continuous", "step" >>
CName(k, ix) == CASE k = "HandednessE" -> CHandedness[ix] [] k = "ZAxisE" -> CZAxis[ix] [] k = "ZDriveModeE" -> CZDriveMode[ix] [] OTHER -> IF Enum(k)[ix] = "FIB-SEM" THEN "FIB_SEM" ELSE Enum(k)[ix]
Digs == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
RECURSIVE Dec(_, _)
Dec(n, w) == IF w = 0 THEN "" ELSE Dec(n \div 10, w - 1) \o Digs[(n % 10) + 1]
DateStr(t) == (IF t[1] < 0 THEN "-" ELSE "") \o Dec(IF t[1] < 0 THEN -t[1] ELSE t[1], 4) \o "-" \o Dec(t[2], 2) \o "-" \o Dec(t[3], 2) \o "T" \o Dec(t[4], 2) \o ":" \o Dec(t[5], 2) \o ":" \o Dec(t[6], 2) \o (IF t[7] = 1 THEN "Z" ELSE "")
(* ---- the tree ---- *)
Kid(nd, name) == LET q == SelectSeq(nd.c, LAMBDA x : x.n = name) IN IF q = << >> THEN << >> ELSE << q[1] >>
Kids(nd, name) == SelectSeq(nd.c, LAMBDA x : x.n = name)
RECURSIVE Walk(_, _)
Walk(nd, path) == IF path = << >> THEN << nd >> ELSE LET k == Kid(nd, Head(path)) IN IF k = << >> THEN << >> ELSE Walk(k[1], Tail(path))
Attr(nd, name) == LET q == SelectSeq(nd.a, LAMBDA x : x[1] = name) IN IF q = << >> THEN << >> ELSE << q[1][2] >>
(* a decimal number in normal form *)
RECURSIVE Norm(_, _)
Norm(m, x) == IF m = 0 THEN << 0, 0 >> ELSE IF m % 10 = 0 THEN Norm(m \div 10, x + 1) ELSE << m, x >>
Num(m, x) == LET q == Norm(IF m < 0 THEN -m ELSE m, x) IN << IF m < 0 THEN -q[1] ELSE q[1], q[2] >>
Nums(l) == [ k \in 1..Len(l) |-> Num(l[k][1], l[k][2]) ]
(* a range: << s >> with s = "v" one number, "r" from..to, "f" from.. , "t" ..to *)
Range(it) == [ one |-> it.s = "v", a |-> IF it.s = "t" THEN << "low" >> ELSE << "n", Num(it.a[1], it.a[2]) >>, b |-> IF it.s = "v" THEN << "any" >> ELSE IF it.s = "f" THEN << "high" >> ELSE << "n", Num(it.b[1], it.b[2]) >> ]
RangeOk(it, o) == LET q == Range(it) IN o.one = q.one /\ (IF q.a[1] = "low" THEN o.a[1] = "low" ELSE o.a = q.a) /\ (q.b[1] = "any" \/ IF q.b[1] = "high" THEN o.b[1] = "high" ELSE o.b = q.b)
Unspec(k) == k \in {"j"}
EnumIx(k, s) == LET t == Enum(k) q == { p \in 1..Len(t) : t[p] = s } IN IF q = {} THEN 0 ELSE CHOOSE p \in q : TRUE
Text(v) == IF v.k = "e" THEN "" ELSE v.s
RECURSIVE FieldsBad(_, _, _)
(* "" if the answer o for class c is what the tree below nd says *)
FieldsBad(c, nd, o) ==
    LET t == Table(c)
        One(p) ==
            LET f == t[p][1] kind == t[p][2] k == Kid(nd, f) IN
            IF f \notin DOMAIN o THEN "no answer for " \o f
            ELSE LET x == o[f] IN
            IF k = << >> THEN (IF x = << >> THEN "" ELSE f \o " is reported although the metadata does not state it")
            ELSE LET v == k[1].v wrong == f \o " is not reported as stated" IN
                 CASE kind = "s" -> IF v.k \in {"s", "e"} THEN (IF x = << Text(v) >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "d" -> IF v.k = "d" THEN (IF x = << Num(v.m, v.x) >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "i" -> IF v.k = "i" THEN (IF x = << v.i >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "u" -> IF v.k = "i" /\ v.i >= 0 THEN (IF x = << v.i >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "b" -> IF v.k = "b" THEN (IF x = << v.b >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "ref" -> IF x = Attr(k[1], "Id") THEN "" ELSE wrong
                   [] kind = "refs" -> LET q == SelectSeq(Kids(k[1], "ChannelRef"), LAMBDA y : Attr(y, "Id") # << >>) IN
                                       IF x = << [ p2 \in 1..Len(q) |-> Attr(q[p2], "Id")[1] ] >> THEN "" ELSE wrong
                   [] kind = "color" -> IF v.k = "c" THEN (IF x = << v.rgb >> THEN "" ELSE wrong) ELSE IF v.k \in {"s", "e"} THEN (IF x = << >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "exp" -> IF v.k = "r" THEN (IF Len(x) = 1 /\ RangeOk(v.r[1], x[1]) THEN "" ELSE wrong) ELSE IF v.k \in {"s", "e"} THEN (IF x = << >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "spec" -> LET pk == Kid(k[1], "SinglePeak") rg == Kid(k[1], "Ranges") IN
                        IF pk # << >> THEN (IF pk[1].v.k # "d" THEN "" ELSE IF Len(x) = 1 /\ x[1].peak /\ x[1].v = Num(pk[1].v.m, pk[1].v.x) THEN "" ELSE wrong)
                        ELSE IF rg # << >> THEN (IF rg[1].v.k = "r" THEN (IF Len(x) = 1 /\ ~x[1].peak /\ Len(x[1].r) = Len(rg[1].v.r) /\ \A p2 \in 1..Len(rg[1].v.r) : RangeOk(rg[1].v.r[p2], x[1].r[p2]) THEN "" ELSE wrong)
                                                 ELSE IF rg[1].v.k \in {"s", "e"} THEN (IF x = << >> THEN "" ELSE wrong) ELSE "")
                        ELSE IF x = << >> THEN "" ELSE wrong
                   [] kind = "d2" -> IF v.k = "l" THEN (IF Len(v.l) < 2 THEN (IF x = << >> THEN "" ELSE wrong) ELSE IF x = << << Nums(v.l)[1], Nums(v.l)[2] >> >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "ilist" -> IF v.k = "l" THEN (IF x = << [ p2 \in 1..Len(v.l) |-> v.l[p2][1] ] >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "date" -> IF v.k = "t" THEN (IF x = << v.t >> THEN "" ELSE wrong) ELSE IF v.k \in {"s", "e"} THEN (IF x = << >> THEN "" ELSE wrong) ELSE ""
                   [] kind = "cdate" -> IF v.k = "t" THEN (IF x = << DateStr(v.t) >> THEN "" ELSE wrong) ELSE IF v.k \in {"s", "e"} THEN (IF x = << >> THEN "" ELSE wrong) ELSE ""
                   [] SubSeq(kind, 1, 1) = "c" /\ SubSeq(kind, Len(kind), Len(kind)) = "E" ->
                        LET k2 == SubSeq(kind, 2, Len(kind)) IN IF v.k \in {"s", "e"} THEN (LET ix == EnumIx(k2, Text(v)) IN IF x = (IF ix = 0 THEN << >> ELSE << CName(k2, ix) >>) THEN "" ELSE wrong) ELSE ""
                   [] kind = "pos" -> LET iv == Kid(k[1], "Interval") li == Walk(k[1], << "List", "Offsets" >>) IN
                        IF iv # << >> THEN
                            (IF Len(x) # 1 \/ x[1].k # "i" THEN wrong
                             ELSE LET st == Kid(iv[1], "Start") ic == Kid(iv[1], "Increment") IN
                                  IF (st # << >> /\ st[1].v.k = "d" /\ x[1].a # Num(st[1].v.m, st[1].v.x)) \/ (ic # << >> /\ ic[1].v.k = "d" /\ x[1].b # Num(ic[1].v.m, ic[1].v.x)) THEN wrong ELSE "")
                        ELSE IF li # << >> THEN (IF Len(x) # 1 \/ x[1].k # "l" THEN wrong ELSE IF li[1].v.k = "l" /\ x[1].l # Nums(li[1].v.l) THEN wrong ELSE "")
                        ELSE IF x = << >> THEN "" ELSE wrong
                   [] kind = "*LightSource" -> LET q == Kids(k[1], "LightSourceSettings") IN
                        IF Len(x) # 1 \/ Len(x[1]) # Len(q) THEN "wrong number of light sources"
                        ELSE LET b == { p2 \in 1..Len(q) : FieldsBad("LightSource", q[p2], x[1][p2]) # "" } IN
                             IF b = {} THEN "" ELSE LET p2 == CHOOSE y \in b : TRUE IN FieldsBad("LightSource", q[p2], x[1][p2])
                   [] Enum(kind) # << >> -> IF v.k \in {"s", "e"} THEN (LET ix == EnumIx(kind, Text(v)) IN IF x = (IF ix = 0 THEN << >> ELSE << ix - 1 >>) THEN "" ELSE wrong) ELSE ""
                   [] OTHER -> \* a class of its own
                        IF Len(x) # 1 THEN wrong ELSE FieldsBad(SubSeq(kind, 2, Len(kind)), k[1], x[1])
        b == { p \in 1..Len(t) : One(p) # "" }
    IN IF b = {} THEN "" ELSE One(CHOOSE p \in b : \A y \in b : p <= y)
=============================================================================
