/* Each kind of note, how bad it is, and what its words must have: see parts() */
K(ERROR, FAILED_READ, "e"),
K(OK, MATCHING_CPL_HASHES, ""),
K(ERROR, MISMATCHED_CPL_HASHES, "chH"),
K(ERROR, INVALID_PICTURE_FRAME_RATE, "R"),
K(OK, CORRECT_PICTURE_HASH, "f"),
K(ERROR, INCORRECT_PICTURE_HASH, "fhH"),
K(ERROR, MISMATCHED_PICTURE_HASHES, "f"),
K(ERROR, INCORRECT_SOUND_HASH, "fhH"),
K(ERROR, MISMATCHED_SOUND_HASHES, "f"),
K(WARNING, EMPTY_ASSET_PATH, ""),
K(ERROR, MISSING_ASSET, "f"),
K(ERROR, MISMATCHED_STANDARD, ""),
K(ERROR, INVALID_XML, "feN"),
K(ERROR, MISSING_ASSETMAP, ""),
K(ERROR, INVALID_INTRINSIC_DURATION, "a"),
K(ERROR, INVALID_DURATION, "a"),
K(OK, VALID_PICTURE_FRAME_SIZES_IN_BYTES, "f"),
K(ERROR, INVALID_PICTURE_FRAME_SIZE_IN_BYTES, "fsF"),
K(WARNING, NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, "fsF"),
K(WARNING, EXTERNAL_ASSET, "a"),
K(WARNING, THREED_ASSET_MARKED_AS_TWOD, "f"),
K(BV21_ERROR, INVALID_STANDARD, ""),
K(BV21_ERROR, INVALID_LANGUAGE, "L"),
K(OK, VALID_RELEASE_TERRITORY, "T"),
K(BV21_ERROR, INVALID_PICTURE_SIZE_IN_PIXELS, "fS"),
K(BV21_ERROR, INVALID_PICTURE_FRAME_RATE_FOR_2K, "fR"),
K(BV21_ERROR, INVALID_PICTURE_FRAME_RATE_FOR_4K, "fR"),
K(BV21_ERROR, INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D, ""),
K(WARNING, INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, "fb"),
K(BV21_ERROR, INVALID_TIMED_TEXT_SIZE_IN_BYTES, "fb"),
K(BV21_ERROR, INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES, "fb"),
K(BV21_ERROR, MISSING_SUBTITLE_LANGUAGE, "f"),
K(BV21_ERROR, MISMATCHED_SUBTITLE_LANGUAGES, ""),
K(BV21_ERROR, MISSING_SUBTITLE_START_TIME, "f"),
K(BV21_ERROR, INVALID_SUBTITLE_START_TIME, "f"),
K(WARNING, INVALID_SUBTITLE_FIRST_TEXT_TIME, ""),
K(WARNING, INVALID_SUBTITLE_DURATION, ""),
K(WARNING, INVALID_SUBTITLE_DURATION_BV21, ""),
K(WARNING, INVALID_SUBTITLE_SPACING, ""),
K(ERROR, SUBTITLE_OVERLAPS_REEL_BOUNDARY, ""),
K(WARNING, INVALID_SUBTITLE_LINE_COUNT, ""),
K(WARNING, NEARLY_INVALID_SUBTITLE_LINE_LENGTH, ""),
K(WARNING, INVALID_SUBTITLE_LINE_LENGTH, ""),
K(BV21_ERROR, INVALID_CLOSED_CAPTION_LINE_COUNT, ""),
K(BV21_ERROR, INVALID_CLOSED_CAPTION_LINE_LENGTH, ""),
K(BV21_ERROR, INVALID_SOUND_FRAME_RATE, "fs"),
K(ERROR, INVALID_SOUND_BIT_DEPTH, "fB"),
K(BV21_ERROR, MISSING_CPL_ANNOTATION_TEXT, "c"),
K(WARNING, MISMATCHED_CPL_ANNOTATION_TEXT, "c"),
K(OK, VALID_CPL_ANNOTATION_TEXT, "n"),
K(BV21_ERROR, MISMATCHED_ASSET_DURATION, ""),
K(BV21_ERROR, MISSING_MAIN_SUBTITLE_FROM_SOME_REELS, ""),
K(BV21_ERROR, MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS, ""),
K(BV21_ERROR, MISSING_SUBTITLE_ENTRY_POINT, "a"),
K(BV21_ERROR, INCORRECT_SUBTITLE_ENTRY_POINT, "a"),
K(BV21_ERROR, MISSING_CLOSED_CAPTION_ENTRY_POINT, "a"),
K(BV21_ERROR, INCORRECT_CLOSED_CAPTION_ENTRY_POINT, "a"),
K(BV21_ERROR, MISSING_HASH, "a"),
K(BV21_ERROR, MISSING_FFEC_IN_FEATURE, ""),
K(BV21_ERROR, MISSING_FFMC_IN_FEATURE, ""),
K(WARNING, MISSING_FFOC, ""),
K(WARNING, MISSING_LFOC, ""),
K(WARNING, INCORRECT_FFOC, "z"),
K(WARNING, INCORRECT_LFOC, "z"),
K(BV21_ERROR, MISSING_CPL_METADATA, "c"),
K(BV21_ERROR, MISSING_CPL_METADATA_VERSION_NUMBER, "c"),
K(BV21_ERROR, MISSING_EXTENSION_METADATA, "c"),
K(BV21_ERROR, INVALID_EXTENSION_METADATA, "fe"),
K(BV21_ERROR, UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, "c"),
K(BV21_ERROR, UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, "p"),
K(BV21_ERROR, MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, "p"),
K(OK, MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL, ""),
K(OK, ALL_ENCRYPTED, ""),
K(OK, NONE_ENCRYPTED, ""),
K(BV21_ERROR, PARTIALLY_ENCRYPTED, ""),
K(ERROR, INVALID_JPEG2000_CODESTREAM, "seF"),
K(BV21_ERROR, INVALID_JPEG2000_GUARD_BITS_FOR_2K, "g"),
K(BV21_ERROR, INVALID_JPEG2000_GUARD_BITS_FOR_4K, "g"),
K(BV21_ERROR, INVALID_JPEG2000_TILE_SIZE, ""),
K(BV21_ERROR, INVALID_JPEG2000_CODE_BLOCK_WIDTH, "w"),
K(BV21_ERROR, INVALID_JPEG2000_CODE_BLOCK_HEIGHT, "y"),
K(BV21_ERROR, INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K, "P"),
K(BV21_ERROR, INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K, "P"),
K(BV21_ERROR, INCORRECT_JPEG2000_POC_MARKER, "e"),
K(BV21_ERROR, INVALID_JPEG2000_POC_MARKER_LOCATION, ""),
K(BV21_ERROR, INVALID_JPEG2000_TILE_PARTS_FOR_2K, "t"),
K(BV21_ERROR, INVALID_JPEG2000_TILE_PARTS_FOR_4K, "t"),
K(ERROR, INVALID_JPEG2000_RSIZ_FOR_2K, "C"),
K(ERROR, INVALID_JPEG2000_RSIZ_FOR_4K, "C"),
K(BV21_ERROR, MISSING_JPEG2000_TLM_MARKER, ""),
K(BV21_ERROR, MISMATCHED_TIMED_TEXT_RESOURCE_ID, ""),
K(BV21_ERROR, INCORRECT_TIMED_TEXT_ASSET_ID, ""),
K(BV21_ERROR, MISMATCHED_TIMED_TEXT_DURATION, "do"),
K(WARNING, MISSED_CHECK_OF_ENCRYPTED, ""),
K(ERROR, EMPTY_TEXT, ""),
K(ERROR, MISMATCHED_CLOSED_CAPTION_VALIGN, ""),
K(ERROR, INCORRECT_CLOSED_CAPTION_ORDERING, ""),
K(ERROR, UNEXPECTED_ENTRY_POINT, ""),
K(ERROR, UNEXPECTED_DURATION, ""),
K(ERROR, INVALID_CONTENT_KIND, "k"),
K(OK, VALID_CONTENT_KIND, "k"),
K(ERROR, INVALID_MAIN_PICTURE_ACTIVE_AREA, "e"),
K(OK, VALID_MAIN_PICTURE_ACTIVE_AREA, "S"),
K(ERROR, DUPLICATE_ASSET_ID_IN_PKL, "p"),
K(ERROR, DUPLICATE_ASSET_ID_IN_ASSETMAP, "m"),
K(ERROR, MISSING_SUBTITLE, "a"),
K(WARNING, INVALID_SUBTITLE_ISSUE_DATE, "i"),
K(ERROR, MISMATCHED_SOUND_CHANNEL_COUNTS, "f"),
K(ERROR, INVALID_MAIN_SOUND_CONFIGURATION, "e"),
K(ERROR, MISSING_FONT, "l"),
K(ERROR, INVALID_JPEG2000_TILE_PART_SIZE, "Fqb"),
K(WARNING, INCORRECT_SUBTITLE_NAMESPACE_COUNT, "a"),
K(ERROR, MISSING_LOAD_FONT_FOR_FONT, "l"),
K(ERROR, MISSING_LOAD_FONT, "a"),
K(ERROR, MISMATCHED_ASSET_MAP_ID, "aO"),
K(WARNING, EMPTY_CONTENT_VERSION_LABEL_TEXT, "c"),
K(OK, VALID_CONTENT_VERSION_LABEL_TEXT, "v"),
K(ERROR, INVALID_CPL_NAMESPACE, "cx"),
K(ERROR, MISSING_CPL_CONTENT_VERSION, "c"),
K(ERROR, INVALID_PKL_NAMESPACE, "fx"),
