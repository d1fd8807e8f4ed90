"""tag numbers: TIFF 6.0, TIFF/EP, Exif 2.32, DNG 1.6 and the tag lists of the camera makers"""

NUMBERS = {
    "TiffCommonTag": {
        "PanaWidth": 2, "PanaLength": 3, "NefWB0": 12, "NrwWB": 20, "NefSerial": 29, "Cr2PowerShotWB": 41, "NewSubFileType": 254, "Cr2OldOffset": 129, "NefMeta1": 140, "NefMeta2": 150, "NefWB1": 151, "Cr2OldWB": 164,
        "NefKey": 167, "ImageWidth": 256, "ImageLength": 257, "BitsPerSample": 258, "SampleFormat": 339, "RowsPerStrip": 278, "XResolution": 282, "YResolution": 283, "ResolutionUnit": 296, "Artist": 315,
        "Compression": 259, "PhotometricInt": 262, "Make": 271, "Model": 272, "StripOffsets": 273, "Orientation": 274, "SamplesPerPixel": 277, "StripByteCounts": 279, "PanaOffsets": 280, "GrayResponse": 291,
        "Software": 305, "Predictor": 317, "TileWidth": 322, "TileLength": 323, "TileOffsets": 324, "TileByteCounts": 325, "SubIFDs": 330, "PefBlackLevels": 512, "PefWB": 513, "PefHuffman": 544, "Xmp": 700,
        "DcrWB": 1021, "DcrLinearization": 2317, "EpsonWB": 3712, "KodakWB": 3840, "RafOldWB": 12272, "Cr2ColorData": 16385, "SonyCurve": 28688, "SonyOffset": 29184, "SonyLength": 29185, "SonyKey": 29217,
        "KodakIFD": 33424, "LeafMetadata": 34310, "ExifIFDPointer": 34665, "Makernote": 37500, "SrwSensorAreas": 40976, "Cr2Id": 50648, "DNGVersion": 50706, "Linearization": 50712, "BlackLevels": 50714,
        "WhiteLevel": 50717, "ColorMatrix1": 50721, "ColorMatrix2": 50722, "AsShotNeutral": 50728, "DNGPrivateArea": 50740, "Cr2StripeWidths": 50752, "ActiveArea": 50829, "MaskedAreas": 50830, "TimeCodes": 51043,
        "FrameFrate": 51044, "TStop": 51058, "RafRawSubIFD": 61440, "RafImageWidth": 61441, "RafImageLength": 61442, "RafBitsPerSample": 61443, "RafWBGRB": 61454, "KdcWB": 64042, "KdcWidth": 64768, "KdcLength": 64769,
        "KdcOffset": 64772, "KdcIFD": 65024, "CFAPattern": 33422, "CFARepeatPatternDim": 33421,
    },
    "ExifTag": {
        "InteropIndex": 1, "InteropVersion": 2, "ProcessingSoftware": 11, "SubfileType": 254, "OldSubfileType": 255, "ImageWidth": 256, "ImageHeight": 257, "BitsPerSample": 258, "Compression": 259,
        "PhotometricInterpretation": 262, "Thresholding": 263, "CellWidth": 264, "CellLength": 265, "FillOrder": 266, "DocumentName": 269, "ImageDescription": 270, "Make": 271, "Model": 272, "StripOffsets": 273,
        "Orientation": 274, "SamplesPerPixel": 277, "RowsPerStrip": 278, "StripByteCounts": 279, "MinSampleValue": 280, "MaxSampleValue": 281, "XResolution": 282, "YResolution": 283, "PlanarConfiguration": 284,
        "PageName": 285, "XPosition": 286, "YPosition": 287, "FreeOffsets": 288, "FreeByteCounts": 289, "GrayResponseUnit": 290, "GrayResponseCurve": 291, "T4Options": 292, "T6Options": 293, "ResolutionUnit": 296,
        "PageNumber": 297, "ColorResponseUnit": 300, "TransferFunction": 301, "Software": 305, "ModifyDate": 306, "Artist": 315, "HostComputer": 316, "Predictor": 317, "WhitePoint": 318, "PrimaryChromaticities": 319,
        "ColorMap": 320, "HalftoneHints": 321, "TileWidth": 322, "TileLength": 323, "TileOffsets": 324, "TileByteCounts": 325, "BadFaxLines": 326, "CleanFaxData": 327, "ConsecutiveBadFaxLines": 328,
        "A100DataOffset": 330, "InkSet": 332, "InkNames": 333, "NumberofInks": 334, "DotRange": 336, "TargetPrinter": 337, "ExtraSamples": 338, "SampleFormat": 339, "SMinSampleValue": 340, "SMaxSampleValue": 341,
        "TransferRange": 342, "ClipPath": 343, "XClipPathUnits": 344, "YClipPathUnits": 345, "Indexed": 346, "JPEGTables": 347, "OPIProxy": 351, "GlobalParametersIFD": 400, "ProfileType": 401, "FaxProfile": 402,
        "CodingMethods": 403, "VersionYear": 404, "ModeNumber": 405, "Decode": 433, "DefaultImageColor": 434, "T82Options": 435, "JPEGTables2": 437, "JPEGProc": 512, "JPEGInterchangeFormat": 513,
        "JPEGInterchangeFormatLength": 514, "JPEGRestartInterval": 515, "JPEGLosslessPredictors": 517, "JPEGPointTransforms": 518, "JPEGQTables": 519, "JPEGDCTables": 520, "JPEGACTables": 521, "YCbCrCoefficients": 529,
        "YCbCrSubSampling": 530, "YCbCrPositioning": 531, "ReferenceBlackWhite": 532, "StripRowCounts": 559, "ApplicationNotes": 700, "USPTOMiscellaneous": 999, "RelatedImageFileFormat": 4096, "RelatedImageWidth": 4097,
        "RelatedImageHeight": 4098, "Rating": 18246, "XpDipXml": 18247, "StitchInfo": 18248, "RatingPercent": 18249, "SonyRawFileType": 28672, "SonyToneCurve": 28688, "VignettingCorrection": 28721,
        "VignettingCorrParams": 28722, "ChromaticAberrationCorrection": 28724, "ChromaticAberrationCorrParams": 28725, "DistortionCorrection": 28726, "DistortionCorrParams": 28727, "SonyRawImageSize": 28728,
        "SonyCropTopLeft": 29895, "SonyCropSize": 29896, "ImageID": 32781, "WangTag1": 32931, "WangAnnotation": 32932, "WangTag3": 32933, "WangTag4": 32934, "ImageReferencePoints": 32953, "RegionXformTackPoint": 32954,
        "WarpQuadrilateral": 32955, "AffineTransformMat": 32956, "Matteing": 32995, "DataType": 32996, "ImageDepth": 32997, "TileDepth": 32998, "ImageFullWidth": 33300, "ImageFullHeight": 33301, "TextureFormat": 33302,
        "WrapModes": 33303, "FovCot": 33304, "MatrixWorldToScreen": 33305, "MatrixWorldToCamera": 33306, "Model2": 33405, "CFARepeatPatternDim": 33421, "CFAPattern2": 33422, "BatteryLevel": 33423, "KodakIFD": 33424,
        "Copyright": 33432, "ExposureTime": 33434, "FNumber": 33437, "MDFileTag": 33445, "MDScalePixel": 33446, "MDColorTable": 33447, "MDLabName": 33448, "MDSampleInfo": 33449, "MDPrepDate": 33450, "MDPrepTime": 33451,
        "MDFileUnits": 33452, "PixelScale": 33550, "AdventScale": 33589, "AdventRevision": 33590, "UIC1Tag": 33628, "UIC2Tag": 33629, "UIC3Tag": 33630, "UIC4Tag": 33631, "IptcNaa": 33723, "IntergraphPacketData": 33918,
        "IntergraphFlagRegisters": 33919, "IntergraphMatrix": 33920, "INGRReserved": 33921, "ModelTiePoint": 33922, "Site": 34016, "ColorSequence": 34017, "IT8Header": 34018, "RasterPadding": 34019,
        "BitsPerRunLength": 34020, "BitsPerExtendedRunLength": 34021, "ColorTable": 34022, "ImageColorIndicator": 34023, "BackgroundColorIndicator": 34024, "ImageColorValue": 34025, "BackgroundColorValue": 34026,
        "PixelIntensityRange": 34027, "TransparencyIndicator": 34028, "ColorCharacterization": 34029, "HCUsage": 34030, "TrapIndicator": 34031, "CMYKEquivalent": 34032, "SEMInfo": 34118, "AfcpIPTC": 34152,
        "PixelMagicJBIGOptions": 34232, "JPLCartoIFD": 34263, "ModelTransform": 34264, "WbGRGBLevels": 34306, "LeafData": 34310, "PhotoshopSettings": 34377, "ExifOffset": 34665, "IccProfile": 34675,
        "TiffFXExtensions": 34687, "MultiProfiles": 34688, "SharedData": 34689, "T88Options": 34690, "ImageLayer": 34732, "GeoTiffDirectory": 34735, "GeoTiffDoubleParams": 34736, "GeoTiffAsciiParams": 34737,
        "JBIGOptions": 34750, "ExposureProgram": 34850, "SpectralSensitivity": 34852, "GPSInfo": 34853, "ISOSpeedRatings": 34855, "ElectricConvFactor": 34856, "Interlace": 34857, "TimeZoneOffset": 34858,
        "SelfTimerMode": 34859, "SensitivityType": 34864, "StandardOutputSensitivity": 34865, "RecommendedExposureIndex": 34866, "ISOSpeed": 34867, "ISOSpeedLatitudeyyy": 34868, "ISOSpeedLatitudezzz": 34869,
        "LeafSubIFD": 34954, "ExifVersion": 36864, "DateTimeOriginal": 36867, "CreateDate": 36868, "GooglePlusUploadCode": 36873, "OffsetTime": 36880, "OffsetTimeOriginal": 36881, "OffsetTimeDigitized": 36882,
        "ComponentsConfiguration": 37121, "CompressedBitsPerPixel": 37122, "ShutterSpeedValue": 37377, "ApertureValue": 37378, "BrightnessValue": 37379, "ExposureBiasValue": 37380, "MaxApertureValue": 37381,
        "SubjectDistance": 37382, "MeteringMode": 37383, "LightSource": 37384, "Flash": 37385, "FocalLength": 37386, "FlashEnergy": 37387, "SpatialFrequencyResponse": 37388, "Noise2": 37389,
        "FocalPlaneXResolution": 37390, "FocalPlaneYResolution": 37391, "FocalPlaneResolutionUnit": 37392, "ImageNumber": 37393, "SecurityClassification": 37394, "ImageHistory": 37395, "SubjectArea": 37396,
        "ExposureIndex": 37397, "TiffEPStandardID": 37398, "SensingMethod": 37399, "CIP3DataFile": 37434, "CIP3Sheet": 37435, "CIP3Side": 37436, "StoNits": 37439, "MakerNotes": 37500, "UserComment": 37510,
        "SubSecTime": 37520, "SubSecTimeOriginal": 37521, "SubSecTimeDigitized": 37522, "MSDocumentText": 37679, "MSPropertySetStorage": 37680, "MSDocumentTextPosition": 37681, "ImageSourceData": 37724,
        "AmbientTemperature": 37888, "Humidity": 37889, "Pressure": 37890, "WaterDepth": 37891, "Acceleration": 37892, "CameraElevationAngle": 37893, "XPTitle": 40091, "XPComment": 40092, "XPAuthor": 40093,
        "XPKeywords": 40094, "XPSubject": 40095, "FlashpixVersion": 40960, "ColorSpace": 40961, "ExifImageWidth": 40962, "ExifImageHeight": 40963, "RelatedSoundFile": 40964, "InteropOffset": 40965,
        "SamsungRawPointersOffset": 40976, "SamsungRawPointersLength": 40977, "SamsungRawByteOrder": 41217, "SamsungRawUnknown": 41218, "FlashEnergy2": 41483, "SpatialFrequencyResponse2": 41484, "Noise": 41485,
        "FocalPlaneXResolution2": 41486, "FocalPlaneYResolution2": 41487, "FocalPlaneResolutionUnit2": 41488, "ImageNumber2": 41489, "SecurityClassification2": 41490, "ImageHistory2": 41491, "SubjectLocation": 41492,
        "ExposureIndex2": 41493, "TiffEPStandardID2": 41494, "SensingMethod2": 41495, "FileSource": 41728, "SceneType": 41729, "CFAPattern": 41730, "CustomRendered": 41985, "ExposureMode": 41986, "WhiteBalance": 41987,
        "DigitalZoomRatio": 41988, "FocalLengthIn35mmFormat": 41989, "SceneCaptureType": 41990, "GainControl": 41991, "Contrast": 41992, "Saturation": 41993, "Sharpness": 41994, "DeviceSettingDescription": 41995,
        "SubjectDistanceRange": 41996, "ImageUniqueID": 42016, "OwnerName": 42032, "SerialNumber": 42033, "LensSpecification": 42034, "LensMake": 42035, "LensModel": 42036, "LensSerialNumber": 42037,
        "CompositeImage": 42080, "CompositeImageCount": 42081, "CompositeImageExposureTimes": 42082, "GDALMetadata": 42112, "GDALNoData": 42113, "Gamma": 42240, "ExpandSoftware": 44992, "ExpandLens": 44993,
        "ExpandFilm": 44994, "ExpandFilterLens": 44995, "ExpandScanner": 44996, "ExpandFlashLamp": 44997, "HasselbladRawImage": 46275, "PixelFormat": 48129, "Transformation": 48130, "Uncompressed": 48131,
        "ImageType": 48132, "Annotations": 50255, "PrintIM": 50341, "HasselbladExif": 50459, "OriginalFileName": 50547,
    },
    "ExifGpsTag": {
        "GPSVersionID": 0, "GPSLatitudeRef": 1, "GPSLatitude": 2, "GPSLongitudeRef": 3, "GPSLongitude": 4, "GPSAltitudeRef": 5, "GPSAltitude": 6, "GPSTimeStamp": 7, "GPSSatellites": 8, "GPSStatus": 9,
        "GPSMeasureMode": 10, "GPSDOP": 11, "GPSSpeedRef": 12, "GPSSpeed": 13, "GPSTrackRef": 14, "GPSTrack": 15, "GPSImgDirectionRef": 16, "GPSImgDirection": 17, "GPSMapDatum": 18, "GPSDestLatitudeRef": 19,
        "GPSDestLatitude": 20, "GPSDestLongitudeRef": 21, "GPSDestLongitude": 22, "GPSDestBearingRef": 23, "GPSDestBearing": 24, "GPSDestDistanceRef": 25, "GPSDestDistance": 26, "GPSProcessingMethod": 27,
        "GPSAreaInformation": 28, "GPSDateStamp": 29, "GPSDifferential": 30, "GPSHPositioningError": 31,
    },
    "DngTag": {
        "DNGVersion": 50706, "DNGBackwardVersion": 50707, "UniqueCameraModel": 50708, "LocalizedCameraModel": 50709, "CFAPlaneColor": 50710, "CFALayout": 50711, "LinearizationTable": 50712, "BlackLevelRepeatDim": 50713,
        "BlackLevel": 50714, "BlackLevelDeltaH": 50715, "BlackLevelDeltaV": 50716, "WhiteLevel": 50717, "DefaultScale": 50718, "BestQualityScale": 50780, "DefaultCropOrigin": 50719, "DefaultCropSize": 50720,
        "CalibrationIlluminant1": 50778, "CalibrationIlluminant2": 50779, "ColorMatrix1": 50721, "ColorMatrix2": 50722, "CameraCalibration1": 50723, "CameraCalibration2": 50724, "ReductionMatrix1": 50725,
        "ReductionMatrix2": 50726, "AnalogBalance": 50727, "AsShotNeutral": 50728, "AsShotWhiteXY": 50729, "BaselineExposure": 50730, "BaselineNoise": 50731, "BaselineSharpness": 50732, "BayerGreenSplit": 50733,
        "LinearResponseLimit": 50734, "CameraSerialNumber": 50735, "LensInfo": 50736, "ChromaBlurRadius": 50737, "AntiAliasStrength": 50738, "ShadowScale": 50739, "DNGPrivateData": 50740, "MakerNoteSafety": 50741,
        "RawDataUniqueID": 50781, "OriginalRawFileName": 50827, "OriginalRawFileData": 50828, "ActiveArea": 50829, "MaskedAreas": 50830, "AsShotICCProfile": 50831, "AsShotPreProfileMatrix": 50832,
        "CurrentICCProfile": 50833, "CurrentPreProfileMatrix": 50834, "ColorimetricReference": 50879, "CameraCalibrationSignature": 50931, "ProfileCalibrationSignature": 50932, "ExtraCameraProfiles": 50933,
        "AsShotProfileName": 50934, "NoiseReductionApplied": 50935, "ProfileName": 50936, "ProfileHueSatMapDims": 50937, "ProfileHueSatMapData1": 50938, "ProfileHueSatMapData2": 50939, "ProfileToneCurve": 50940,
        "ProfileEmbedPolicy": 50941, "ProfileCopyright": 50942, "ForwardMatrix1": 50964, "ForwardMatrix2": 50965, "PreviewApplicationName": 50966, "PreviewApplicationVersion": 50967, "PreviewSettingsName": 50968,
        "PreviewSettingsDigest": 50969, "PreviewColorSpace": 50970, "PreviewDateTime": 50971, "RawImageDigest": 50972, "OriginalRawFileDigest": 50973, "SubTileBlockSize": 50974, "RowInterleaveFactor": 50975,
        "ProfileLookTableDims": 50981, "ProfileLookTableData": 50982, "OpcodeList1": 51008, "OpcodeList2": 51009, "OpcodeList3": 51022, "NoiseProfile": 51041, "DefaultUserCrop": 51125, "DefaultBlackRender": 51110,
        "BaselineExposureOffset": 51109, "ProfileLookTableEncoding": 51108, "ProfileHueSatMapEncoding": 51107, "OriginalDefaultFinalSize": 51089, "OriginalBestQualityFinalSize": 51090, "OriginalDefaultCropSize": 51091,
        "NewRawImageDigest": 51111, "RawToPreviewGain": 51112, "DepthFormat": 51177, "DepthNear": 51178, "DepthFar": 51179, "DepthUnits": 51180, "DepthMeasureType": 51181, "EnhanceParams": 51182,
        "ProfileGainTableMap": 52525, "SemanticName": 52526, "SemanticInstanceID": 52528, "MaskSubArea": 52536, "RGBTables": 52543, "CalibrationIlluminant3": 52529, "ColorMatrix3": 52531, "CameraCalibration3": 52530,
        "ReductionMatrix3": 52538, "ProfileHueSatMapData3": 52537, "ForwardMatrix3": 52532, "IlluminantData1": 52533, "IlluminantData2": 52534, "IlluminantData3": 52535, "ColumnInterleaveFactor": 52547,
    },
}

# value types: B BYTE, A ASCII, S SHORT, L LONG, R RATIONAL, U UNDEFINED, s SSHORT, l SLONG, r SRATIONAL, F FLOAT, D DOUBLE
TYPES = {
    "DngTag": {
        "ActiveArea": "SL", "AsShotNeutral": "SR", "AsShotWhiteXY": "R", "BestQualityScale": "R", "BlackLevel": "SLR", "BlackLevelRepeatDim": "S", "CFALayout": "S", "CFAPlaneColor": "B", "CalibrationIlluminant1": "S",
        "CalibrationIlluminant2": "S", "CalibrationIlluminant3": "S", "ColorMatrix1": "r", "ColorMatrix2": "r", "ColorMatrix3": "r", "ColorimetricReference": "S", "DNGBackwardVersion": "B", "DNGVersion": "B",
        "DefaultCropOrigin": "SLR", "DefaultCropSize": "SLR", "DefaultScale": "R", "LensInfo": "R", "LinearizationTable": "S", "MaskedAreas": "SL", "OriginalRawFileData": "U", "OriginalRawFileDigest": "B",
        "OriginalRawFileName": "AB", "PreviewColorSpace": "L", "RawDataUniqueID": "B", "UniqueCameraModel": "A", "LocalizedCameraModel": "AB", "WhiteLevel": "SL", "BaselineExposure": "r", "BaselineNoise": "R",
        "BaselineSharpness": "R", "LinearResponseLimit": "R", "DNGPrivateData": "B", "MakerNoteSafety": "S", "AnalogBalance": "R", "CameraCalibration1": "r", "CameraCalibration2": "r", "ForwardMatrix1": "r",
        "ForwardMatrix2": "r", "ProfileName": "AB", "ProfileCopyright": "AB", "PreviewApplicationName": "AB", "PreviewApplicationVersion": "AB", "PreviewDateTime": "A", "CameraSerialNumber": "AB",
        "NewRawImageDigest": "B", "RawImageDigest": "B", "AntiAliasStrength": "R", "ShadowScale": "R", "BayerGreenSplit": "L", "ChromaBlurRadius": "R", "NoiseProfile": "D",
    },
    "ExifTag": {
        "ApertureValue": "R", "ExposureTime": "R", "FNumber": "R", "FlashEnergy": "R", "FocalLength": "R", "LensSpecification": "R", "MaxApertureValue": "R", "SubjectDistance": "R", "DigitalZoomRatio": "R",
        "ExposureIndex": "R", "XResolution": "R", "YResolution": "R", "CompressedBitsPerPixel": "R", "Artist": "A", "Copyright": "A", "CreateDate": "A", "DateTimeOriginal": "A", "LensMake": "A", "LensModel": "A",
        "LensSerialNumber": "A", "ModifyDate": "A", "OffsetTime": "A", "OffsetTimeDigitized": "A", "OffsetTimeOriginal": "A", "OwnerName": "A", "SerialNumber": "A", "SubSecTime": "A", "SubSecTimeDigitized": "A",
        "SubSecTimeOriginal": "A", "ImageDescription": "A", "Make": "A", "Model": "A", "Software": "A", "HostComputer": "A", "ImageUniqueID": "A", "BrightnessValue": "r", "ExposureBiasValue": "r",
        "ShutterSpeedValue": "r", "ColorSpace": "S", "ExposureMode": "S", "ExposureProgram": "S", "Flash": "S", "ISOSpeedRatings": "S", "LightSource": "S", "MeteringMode": "S", "Orientation": "S",
        "PlanarConfiguration": "S", "SceneCaptureType": "S", "SensitivityType": "S", "SubjectDistanceRange": "S", "WhiteBalance": "S", "SensingMethod": "S", "FocalLengthIn35mmFormat": "S", "GainControl": "S",
        "Contrast": "S", "Saturation": "S", "Sharpness": "S", "CustomRendered": "S", "ResolutionUnit": "S", "ISOSpeed": "L", "ImageNumber": "L", "RecommendedExposureIndex": "L", "StandardOutputSensitivity": "L",
        "GPSInfo": "L", "ApplicationNotes": "B", "ExifVersion": "U", "MakerNotes": "U", "ComponentsConfiguration": "U", "FlashpixVersion": "U", "FileSource": "U", "SceneType": "U", "TimeZoneOffset": "s",
        "UserComment": "UA",
    },
    "ExifGpsTag": {
        "GPSAltitude": "R", "GPSDOP": "R", "GPSDestBearing": "R", "GPSDestDistance": "R", "GPSDestLatitude": "R", "GPSDestLongitude": "R", "GPSHPositioningError": "R", "GPSImgDirection": "R", "GPSLatitude": "R",
        "GPSLongitude": "R", "GPSSpeed": "R", "GPSTimeStamp": "R", "GPSTrack": "R", "GPSAltitudeRef": "B", "GPSVersionID": "B", "GPSAreaInformation": "U", "GPSProcessingMethod": "U", "GPSDifferential": "S",
        "GPSDateStamp": "A", "GPSDestBearingRef": "A", "GPSDestDistanceRef": "A", "GPSDestLatitudeRef": "A", "GPSDestLongitudeRef": "A", "GPSImgDirectionRef": "A", "GPSLatitudeRef": "A", "GPSLongitudeRef": "A",
        "GPSMapDatum": "A", "GPSMeasureMode": "A", "GPSSatellites": "A", "GPSSpeedRef": "A", "GPSStatus": "A", "GPSTrackRef": "A",
    },
    "TiffCommonTag": {
        "Artist": "A", "Make": "A", "Model": "A", "Software": "A", "BitsPerSample": "S", "Compression": "S", "Orientation": "S", "PhotometricInt": "S", "Predictor": "S", "SampleFormat": "S", "SamplesPerPixel": "S",
        "ResolutionUnit": "S", "CFARepeatPatternDim": "S", "ImageLength": "SL", "ImageWidth": "SL", "RowsPerStrip": "SL", "StripByteCounts": "SL", "TileByteCounts": "SL", "TileLength": "SL", "TileWidth": "SL",
        "StripOffsets": "SL", "ActiveArea": "SL", "MaskedAreas": "SL", "ExifIFDPointer": "L", "NewSubFileType": "L", "TileOffsets": "L", "SubIFDs": "L", "CFAPattern": "B", "Xmp": "B", "DNGPrivateArea": "B",
        "DNGVersion": "B", "XResolution": "R", "YResolution": "R", "Linearization": "S", "WhiteLevel": "SL", "BlackLevels": "SLR", "ColorMatrix1": "r", "ColorMatrix2": "r", "AsShotNeutral": "SR",
    },
}
