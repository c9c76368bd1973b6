"""The properties, and how each is claimed.  Run to write properties.jsonl and MANIFEST.json."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []
CLAIMS = {}


def prop(id, title, statement, over, text, tests, files, mechanism, observe, state=(), technique=None, note=None, na=None, level='model_checking'):
    assert len(title) <= 80, title
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(tests.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    })
    CLAIMS[id] = dict(technique=technique, note=' '.join(note.split()) if note else None, na=na, level=level)


BOUND = 'exhaustive within the bounds given in the evidence, on the real code, against an independent reference; assumes that the values outside the bounds behave as those inside'

prop('C01', 'Times with UTC offsets are ordered by the instant that they name',
     '''Two times with UTC offsets compare as the instants that they name compare, to the millisecond and whatever their offsets: each of the six comparison operators gives what comparing the instants
     would.  Equal times are those that name the same instant, and the ordering is a strict weak ordering with which the "or equal" versions agree.
     Offsets can be set to all hours from -12 to 14 with all minutes, and are equal exactly when they are the same.''',
     ['inputs'], 'every pair of times over all years, dates, times of day and offsets, including those where the offset moves the date',
     'the one ordering test compares a handful of pairs of literals; the failures are in combinations of offset minutes, day and month boundaries',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc', 'src/utc_offset.h'],
     [('operator<, operator>, operator==', 'src/local_time.cc'), ('as_utc', 'src/local_time.cc')], ['the comparison operators of LocalTime'],
     technique='exhaustive enumeration of pairs of times from grids of field values against a civil-calendar reference model', note=BOUND)

prop('C02', 'Times are written and read as ISO 8601 without loss',
     '''Writing a time and reading it back gives the same time (to the second, or to the millisecond when that was asked for, and with the same UTC offset), and the text is
     the ISO 8601 form of the time.  Reading accepts texts with or without a fraction (of which the milliseconds are kept) and with a Z, an offset from -12:59 to +14:59 or
     nothing for the zone, and gives the time that was written.  Any text that is not of such a form is refused with the documented error, and never crashes or gives a wrong time.''',
     ['inputs'], 'all times that can be represented, and all texts',
     'tests read about twenty literal strings; the space is every text, and near-misses of valid texts',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc'],
     [('LocalTime(string)', 'src/local_time.cc'), ('as_string, date, time_of_day', 'src/local_time.cc'), ('UTCOffset setters', 'src/utc_offset.cc')],
     ['text given by as_string()/date()/time_of_day() and operator<<; fields after parsing; type of exception'],
     technique='exhaustive enumeration of field values and of all texts within an edit distance of templates, against a reference writer and grammar', note=BOUND)

prop('C03', 'Adding to a time follows the calendar',
     '''Adding days, minutes or any duration to a time moves the instant by exactly that much and leaves the offset alone, across month, year and leap-day boundaries and for negative amounts.
     Adding months moves the month, keeping the day where it exists, clipping it where it does not, and keeping the last day of a month the last day.''',
     ['inputs', 'histories'], 'every start and amount, and every sequence of additions',
     'tests add to a few literals; boundaries of months, leap years and centuries, and compositions are not reached',
     ['src/local_time.cc'], [('add_days, add_months, add_minutes, add', 'src/local_time.cc')], ['fields of the time after the additions'],
     technique='exhaustive enumeration of start dates and steps, and of operation histories to a depth, against a civil-calendar reference', note=BOUND)

prop('C04', 'Times from other representations name the same instant',
     '''A time made from broken-down local time, from a calendar library's time, from the certificate encodings of time, or from the current clock has the fields and offset of its source, also when
     the clock is looked at just as the offset of the place changes.
     Conversion to UTC keeps the instant, and conversion to seconds since 1970 is the number of seconds to that instant, whatever the zone of the process or of the time.''',
     ['inputs', 'configurations', 'schedules'], 'all dates, offsets, encodings and time zones of the process; all points at which the clock moves on',
     'tests use one or two literals in the zone of the machine',
     ['src/local_time.cc'], [('constructors, from_asn1_*', 'src/local_time.cc'), ('as_utc, as_time_t', 'src/local_time.cc')], ['fields; as_time_t(); as_utc()'],
     technique='exhaustive enumeration of dates, encodings and process time zones against a civil-calendar reference', note=BOUND)

prop('C05', 'Look-up tables of transfer functions hold the curve, whatever was asked before',
     '''Every look-up table that a transfer function gives has an entry for each code of its bit depth, spread evenly over the range asked for, holding the value of the function's documented curve (or
     of its inverse), and the integer version holds that value times the scale, rounded.  What was asked for before, in any order and with any ranges, depths, directions or scales, never changes a table, nor does a failure to
     allocate memory on the way.''',
     ['inputs', 'histories', 'fault_sequences'], 'all curves, ranges, depths, directions and scales; all histories of requests; each allocation failing',
     'tests compare a few tables of one curve with recorded data and never ask for two similar tables from one object',
     ['src/transfer_function.cc', 'src/transfer_function.h', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/identity_transfer_function.cc'],
     [('LUT caches', 'src/transfer_function.cc'), ('make_double_lut', 'src/*_transfer_function.cc')], ['double_lut(), int_lut()'],
     state=[('_double_luts, _int_luts', 'tables made so far, by range, depth, direction and scale', 'src/transfer_function.h')],
     technique='exhaustive enumeration of requests, request histories to a depth, and allocation-failure points against reference curves', note=BOUND)

prop('C06', 'Threads may share tables and presets, and use separate objects, at the same time',
     '''Threads which ask one transfer function for tables at the same time, or ask for the preset colour conversions for the first time at the same time, get the same tables and presets as if they had asked one after another, in every order in which the system may run them,
     including when one of them runs out of memory; what they are given stays valid afterwards.  There is no data race, deadlock or use of freed memory.  Different objects (times, bit streams, modulators, names, paths, files, tables, conversions) may be used in different threads at once.''',
     ['schedules', 'fault_sequences'], 'all schedules of two and three threads up to a number of pre-emptions; each allocation failing', 'tests have one thread',
     ['src/transfer_function.cc', 'src/transfer_function.h', 'src/colour_conversion.cc', 'src/local_time.cc'], [('the mutex around the caches of tables', 'src/transfer_function.cc'), ('first use of a preset', 'src/colour_conversion.cc'), ('LocalTime::LocalTime()', 'src/local_time.cc')],
     ['tables, presets and other results in each thread'], state=[('_mutex', 'held by whoever is using the caches', 'src/transfer_function.h')],
     technique='exhaustive exploration of thread schedules of the real code (pre-emption bounded) with happens-before race detection on every access in each', note=BOUND)

prop('C07', 'A piecewise table gives the function to within its step',
     '''Looking up a value in a piecewise table of a function gives the value of the function at a point of the table's grid within half a grid step of the value, in the low part and in the high part and at the join of the two, and
     a table of a rising function never falls.''',
     ['inputs'], 'all functions, boundaries, depths and points', 'the test samples one curve at one shape and takes an average error',
     ['src/piecewise_lut.h'], [('PiecewiseLUT2::lookup', 'src/piecewise_lut.h')], ['lookup()'],
     technique='exhaustive enumeration of table shapes and of the points at and around every grid point', note=BOUND)

prop('C08', 'Colour conversions map primaries and white as colorimetry says',
     '''The matrix from RGB to XYZ sends each primary to its chromaticity and equal amounts of all three to the white point at unit luminance; the matrix the other way is its inverse.  The chromatic adaptation is the identity when no
     white is adjusted and otherwise sends the first white to the second by the Bradford method.  Each preset has the primaries, white and transfer functions of its standard, and the same object every time.''',
     ['inputs'], 'all sets of primaries and white points; all presets', 'tests compare the matrices of two presets with recorded numbers',
     ['src/colour_conversion.cc', 'src/colour_conversion.h', 'src/chromaticity.cc', 'src/chromaticity.h'],
     [('rgb_to_xyz, xyz_to_rgb, bradford', 'src/colour_conversion.cc'), ('presets', 'src/colour_conversion.cc')], ['matrices; accessors; presets'],
     technique='exhaustive enumeration of a grid of primaries and whites against a reference computed from the definitions', note=BOUND)

prop('C09', 'Approximate equality notices every part of a conversion',
     '''Two chromaticities, transfer functions or colour conversions are approximately equal exactly when every corresponding part of them differs by less than the tolerance and the kinds of their functions are the same.
     The answer is the same either way round, and everything is approximately equal to itself.''',
     ['inputs'], 'all pairs of conversions differing in any one part by any amount, and all tolerances', 'there is no test of a pair differing in a single part',
     ['src/colour_conversion.cc', 'src/chromaticity.cc', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/identity_transfer_function.cc'],
     [('about_equal', 'src/*.cc')], ['about_equal()'],
     technique='exhaustive enumeration of pairs differing in each part by steps around the tolerance', note=BOUND)

prop('C10', 'The bit stream is the bits written, with right checksums',
     '''The stream is exactly the bits given, each group most significant bit first and of the width asked for, in the order written.  The check bits written at the end of a section are the CRC of the bits written since it
     was started, for any polynomial, whatever was written or checked before.''',
     ['inputs', 'histories'], 'all values, widths and polynomials; all sequences of operations', 'tests write one fixed sequence with one polynomial',
     ['src/bitstream.cc', 'src/bitstream.h'], [('write_*, start_crc, write_crc', 'src/bitstream.cc')], ['get()'],
     state=[('_crc', 'the checksum being made', 'src/bitstream.h'), ('_data', 'bits so far', 'src/bitstream.h')],
     technique='exhaustive operation histories to a depth against a polynomial-division reference', note=BOUND)

prop('C11', 'The FSK signal carries exactly the bits it was given',
     '''The signal made for a message is, four samples to the bit, the waveform that the synchronisation standard gives for that bit (one cycle or half a cycle, continuous in phase), so that a decoder recovers exactly the bits given, in order.
     Giving the message in several blocks makes the same signal as giving it in one.''',
     ['inputs', 'histories'], 'all messages, and all divisions of them into blocks', 'tests encode one fixed message and compare with recorded output',
     ['src/fsk.cc', 'src/fsk.h'], [('FSK::get', 'src/fsk.cc')], ['get()'],
     state=[('_last', 'sign and value that the last bit ended with', 'src/fsk.h')],
     technique='exhaustive enumeration of messages to a length and of their divisions, with a reference modulator and a decoder', note=BOUND)

prop('C12', 'Names made from a template are safe and complete',
     '''A name made from a template is the template with each code that has a value (and that the caller did not ask to be ignored) replaced by its value and with the suffix added unchanged at the end.  In the values and the fixed parts alike, slashes and
     colons become hyphens and spaces become underscores, so that no value can put a directory into the name.  Codes with no value, and everything else, stay as they are.''',
     ['inputs'], 'all templates, values, excused characters and suffixes', 'tests use three templates',
     ['src/name_format.cc', 'src/name_format.h'], [('NameFormat::get, filter', 'src/name_format.cc')], ['get()'],
     technique='exhaustive enumeration of templates over an alphabet, and of every character, against a reference expansion', note=BOUND)

prop('C13', 'Cleaning up a path keeps what it points at',
     '''The cleaned-up form of a path, which need not exist, is absolute, has no "." in it and no ".." that does not follow a symbolic link, and points at the same thing as the original if the original points at
     anything.  Where no links are involved it is the absolute path with each ".." cancelling what came before it, never going above the root; cleaning it up again changes nothing.''',
     ['inputs', 'configurations'], 'all paths, relative and absolute, over all directory trees', 'the test uses a few literal paths that mostly do not exist',
     ['src/filesystem.cc'], [('weakly_canonical', 'src/filesystem.cc')], ['weakly_canonical()'],
     technique='exhaustive enumeration of component sequences over a tree with links, against a lexical reference and realpath', note=BOUND)

prop('C14', 'File operations do what the system does, and report what it reports',
     '''Each file-system operation (creating, removing, renaming, copying, linking) has exactly the effect of the system operation of its name on the paths given and on nothing else, and succeeds or fails (by exception or by error code) as that does.
     Questions about a path (existence, kind, size, links, time, emptiness, extension, listing, recursive listing) are answered as the system answers them.''',
     ['histories'], 'all sequences of operations from all small trees', 'tests use the wrappers only in passing, on the path where they succeed',
     ['src/filesystem.cc', 'src/filesystem.h'], [('wrappers, directory_iterator, recursive_directory_iterator', 'src/filesystem.cc')], ['the tree, and the results'],
     technique='breadth-first enumeration of operation histories on a real tree beside a twin driven by system calls, merged on the whole tree', note=BOUND + '; copying of directories and of a file over itself is not judged')

prop('C15', 'A file handle is owned once and its contents are what was written',
     '''Reading, writing, seeking and asking the position through a file object act on the file as the same operations of the C library do, and the checked versions throw exactly when fewer bytes than asked for were
     transferred.  Each open handle is closed exactly once: at most one object owns it through any sequence of moves, assignments, releases and closes, and none is leaked or used after closing.''',
     ['histories'], 'all sequences of operations, modes and starting contents; all sequences of transfers of ownership', 'there are no tests of this class of their own',
     ['src/file.cc', 'src/file.h'], [('move constructor and assignment, close, take', 'src/file.cc'), ('checked_read, checked_write', 'src/file.cc')], ['contents of files; open descriptors; results'],
     state=[('_file', 'the handle, or null', 'src/file.h')],
     technique='exhaustive operation histories on the real code against a byte-array model and against counts of open descriptors', note=BOUND)

prop('C16', 'Data is written and read whole, or the failure is reported',
     '''Writing some data to a file either leaves exactly that data in the file or throws, and reading a file gives exactly what it holds or throws, whichever of the system calls made on the way fails or transfers only part of what was asked.  Writing by way of a temporary file
     never leaves anything but the old contents or the whole of the new ones at the final name, whatever fails and wherever the process stops.  Two pieces of data are equal exactly when they have the same size and bytes.''',
     ['fault_sequences', 'crash_points', 'inputs'], 'every system call failing in each way or being cut short, pairs of these, and the process being stopped before and after each', 'tests have no failures in them',
     ['src/data.cc', 'src/data.h', 'src/array_data.cc', 'src/file.cc'], [('write, write_via_temp', 'src/data.cc'), ('ArrayData(path)', 'src/array_data.cc')], ['contents of files; exceptions'],
     technique='exhaustive injection of errors, partial transfers and crashes at every system call of each operation, singly and in pairs, by tracing the process', note=BOUND, level='fault_enumeration')

prop('C17', 'Names of content kinds, alignments and standards read back as written',
     '''Every content kind and alignment is written as the name and scope that the standards give it, distinct ones have distinct names, and reading a name back gives what was written (content kinds in any mixture of case); any other name is refused with the documented error.
     Content kinds are equal exactly when their names and scopes are.  Each subtitle standard uses exactly one of the two ways of placing text (baseline or bounding box), the one that it specifies.''',
     ['inputs'], 'all values and all texts', 'tests read some names and not their near-misses',
     ['src/content_kind.cc', 'src/content_kind.h', 'src/h_align.cc', 'src/v_align.cc', 'src/subtitle_standard.cc'], [('from_name, *_to_string, string_to_*', 'src/*.cc')], ['names, values, exceptions'],
     technique='exhaustive enumeration of names, their case mixtures, single edits and short strings', note=BOUND)

prop('C18', 'A scope guard runs its action exactly once unless cancelled',
     '''The action of a scope guard runs exactly once, when the guard that holds it goes out of scope (also by an exception), and not at all if it was cancelled.  Moving a guard moves the duty with it: the action still runs once, at the end of the last holder,
     and a guard that was cancelled stays cancelled.''',
     ['histories'], 'all sequences of creation, move, cancellation and destruction', 'tests cover one guard in a scope',
     ['src/scope_guard.h'], [('ScopeGuard', 'src/scope_guard.h')], ['number and time of calls of the action'],
     technique='exhaustive operation histories on up to three guards against a reference', note=BOUND)

SHIMS = BOUND + '; libcxml, asdcplib and fast_float are not on this machine and are replaced by stand-ins (shim/full), with which 246 of the 327 tests of the repository pass (the others need files which are not here)'

prop('C19', 'Times within a reel are exact numbers of editable units',
     '''A subtitle time stands for an exact number of seconds: comparing, adding, subtracting, dividing and rescaling times gives what rational arithmetic gives, whatever their timecode rates, and results have all their parts in range.  A time made from a frame number, from
     seconds or from a text (hours, minutes, seconds and editable units or milliseconds, in Interop and SMPTE forms) stands for that time, to the nearest unit, and written and read back is the same; texts with too few or too many parts are refused.''',
     ['inputs'], 'all times and rates, pairs of them and all shapes of text', 'tests use a few literals at rates of 24 and 25; failures are in carries, mixtures of rates and large rates',
     ['src/dcp_time.cc', 'src/dcp_time.h'], [('Time', 'src/dcp_time.cc')], ['fields and texts of Time'],
     technique='exhaustive enumeration of times, pairs, frame numbers and texts against integer rational arithmetic', note=SHIMS)

prop('C20', 'Language tags are accepted exactly when well-formed and keep their parts',
     '''A text is accepted as a language tag exactly when it is a known language followed by an optional known script, an optional known region, known variants and known extended subtags, in that order, in any case and none repeated; anything else is refused with LanguageTagError.
     The parts, the text and the description are those of the tag that was read or built, tags written and read back are the same, and a change that is refused leaves the tag as it was.  The lists of subtags hold exactly what the registry files do, in order.''',
     ['inputs', 'histories'], 'all texts and all sequences of changes', 'tests read about ten tags', ['src/language_tag.cc', 'src/language_tag.h', 'tags'],
     [('LanguageTag', 'src/language_tag.cc'), ('load_language_tag_lists', 'src/language_tag.cc')], ['accessors, text and description of the tag; exceptions'],
     technique='exhaustive enumeration of texts over an alphabet of subtags and of histories of changes, against a reference grammar', note=SHIMS)

prop('C21', 'Values written as text are accurate and read back the same',
     '''Integers of every type are written in decimal and read back as the same value; reals are written and read to the precision that was asked for.  Messages are composed with each argument, empty or not, in the places where it is asked for.
     Effects, directions, markers, statuses, formulations and luminance units have their standard names and only those are read; fractions, colours, luminances and ratings are written in the forms of the standards, read back equal, and compare equal exactly when they are.
     The rating systems are exactly those in the file of ratings.''',
     ['inputs'], 'all values and all texts', 'tests convert a few literals', ['src/raw_convert.cc', 'src/locale_convert.cc', 'src/compose.hpp', 'src/types.cc', 'src/types.h', 'src/rating.cc'],
     [('raw_convert, locale_convert', 'src/*_convert.cc'), ('Composition', 'src/compose.hpp'), ('*_to_string, string_to_*, Fraction, Colour, Luminance', 'src/types.cc')], ['texts, values, exceptions'],
     technique='exhaustive enumeration of values, of message formats and of names with their single edits against independent writers and readers', note=SHIMS)

prop('C22', 'Sound configurations say which channel is where, and read back',
     '''A sound configuration read from a text is valid exactly when it has at most 16 channels, each of which is a known identifier (in any case) or a dash; its field and channels are those in the text, which is kept as it was.  Anything asked of an invalid one is refused.
     Changing the number of channels or the mapping of one changes just that, and the new text reads back as the same configuration.  Every channel has an identifier, name and label of its own, and the identifier is read as that channel.''',
     ['inputs', 'histories'], 'all texts and all sequences of changes', 'tests read about ten texts', ['src/main_sound_configuration.cc', 'src/main_sound_configuration.h'],
     [('MainSoundConfiguration', 'src/main_sound_configuration.cc'), ('mca_id_to_channel, channel_to_mca_*', 'src/main_sound_configuration.cc')], ['accessors, text, exceptions'],
     technique='exhaustive enumeration of texts and of histories of changes against a reference', note=SHIMS)

prop('C23', 'Composition playlists keep everything that they say when read and written',
     '''Everything in a composition playlist which the library knows of is read from it: its texts, kind, versions, ratings, metadata, extension metadata and sound descriptors, and in each reel the assets of every kind with their identifiers, rates,
     durations, entry points, keys, hashes, languages, aspect ratios and markers; nothing else is read.  Written again it says the same, with every element in the place and namespace that the standards give, and text is kept whatever characters are in it.
     One which is built by setting each thing is written in the same way.  A reel and a playlist know their durations and whether any or all of their files are encrypted.
     Two playlists are equal exactly when they agree in annotation, kind and in what their reels contain, except where the options allow a difference, whichever way round they are compared.  Settings which could not be written validly are refused and leave what was there.''',
     ['inputs', 'configurations'], 'all playlists of both standards and all profiles, with every combination of assets and metadata',
     'tests write a few CPLs and compare them with whole files; most combinations of assets and options have no test', ['src/cpl.cc', 'src/reel.cc', 'src/reel_asset.cc', 'src/reel_file_asset.cc', 'src/reel_picture_asset.cc', 'src/reel_smpte_text_asset.cc', 'src/reel_interop_text_asset.cc', 'src/reel_markers_asset.cc', 'src/extension_metadata.cc', 'src/mca_sub_descriptor.cc', 'src/rating.cc'],
     [('CPL, CPL::write_xml, CPL::equals', 'src/cpl.cc'), ('Reel', 'src/reel.cc'), ('ReelAsset::write_to_cpl', 'src/reel_asset.cc')], ['accessors', 'files written, in a canonical form'],
     technique='exhaustive enumeration of playlists, one or two changes from six bases, against an independent model with its own XML writer', note=SHIMS)

prop('C24', 'A DCP which is written describes exactly the files that are in it',
     '''After any sequence of adding assets, changing them, writing, reading and adding more, a DCP which is written has an asset map, a packing list and playlists which list every one of its files once, each with its own identifier, path, size, type and
     hash, and nothing else; assets of other DCPs to which it refers are not listed.  The files are those that the standard calls for, with names from the given format, and what is no longer part of the DCP is not described.
     Reading it back gives playlists whose references all resolve to the same assets, with nothing noted; summaries of its playlists agree with them.  A file which is missing, has no identifier that is known, or is listed twice is noted or refused rather than ignored.''',
     ['histories', 'configurations'], 'all histories of building, writing, reading and changing, with every kind of asset, of both standards',
     'tests write a few DCPs once each; assets which change between writes, shared fonts, images and references to other DCPs are hardly tested', ['src/dcp.cc', 'src/asset_map.cc', 'src/pkl.cc', 'src/asset.cc', 'src/ref.cc', 'src/interop_text_asset.cc', 'src/smpte_text_asset.cc', 'src/font_asset.cc', 'src/cpl_summary.h', 'src/asset_factory.cc'],
     [('DCP::write_xml, DCP::read, DCP::assets, DCP::resolve_refs', 'src/dcp.cc'), ('AssetMap', 'src/asset_map.cc'), ('PKL', 'src/pkl.cc'), ('Asset::hash, Asset::add_to_pkl', 'src/asset.cc')], ['files written', 'notes', 'accessors after reading'],
     technique='exhaustive enumeration of histories of a DCP on the real library and file system; what is written is judged by an independent reader which finds sizes and hashes of the files itself', note=SHIMS)

prop('C25', 'KDMs carry exactly their keys, to their recipient, for their time',
     '''A KDM which is made from any set of keys for a recipient holds those keys (their types, identifiers, CPLs and values) in blocks which only the recipient's private key opens, and says who signed it, for whom, for which CPL, between which times, for
     which devices and with which forensic marking, as asked for; its signature is that of the leaf of the signer's chain, over both of its parts.  It is not made unless its period lies within that of every certificate of the signer.
     Read back from its XML it is the same, is written the same, and gives the same keys with the recipient's private key; with any other key, or if an encrypted key is changed in any way, decryption is refused, as are documents which are cut short and keys whose periods disagree.
     A KDM for a CPL has a key for each of its encrypted assets and no other.  Giving a KDM to a CPL or DCP gives each asset whose key it has, of whatever kind and whether found before or after, that key, and gives nothing to others.''',
     ['inputs', 'configurations', 'histories'], 'all keys, recipients, signers, options and periods; all damage to the XML; all sets of encrypted assets and of keys',
     'tests make a few KDMs with one or two options and decrypt a fixed one', ['src/decrypted_kdm.cc', 'src/encrypted_kdm.cc', 'src/decrypted_kdm_key.cc', 'src/key.cc', 'src/reel.cc', 'src/cpl.cc', 'src/dcp.cc', 'src/smpte_text_asset.cc', 'src/certificate_chain.cc'],
     [('DecryptedKDM, DecryptedKDM::encrypt', 'src/decrypted_kdm.cc'), ('EncryptedKDM', 'src/encrypted_kdm.cc'), ('Reel::give_kdm_to_assets', 'src/reel.cc'), ('Key', 'src/key.cc')], ['XML, in a canonical form', 'decrypted keys', 'keys of assets', 'exceptions'],
     technique='exhaustive enumeration of contents, periods, damage and sets of assets; documents compared with a model, signatures checked with xmlsec and key blocks opened with OpenSSL', note=SHIMS)

prop('C26', 'Certificate chains are put in order, judged, and signed with, correctly',
     '''Certificates are a chain exactly when they can be put in an order in which the first signs itself and each is signed by the one before, which may sign; whatever order they were added or written in, that is the order which is given, from root to leaf
     and leaf to root.  A chain is valid exactly when its private key is that of its leaf.  A certificate is read from any layout of its text and then has the names, serial number, times, thumbprint, key and text that it was made with, as do its copies; text which is not a whole certificate is refused.
     A chain which is made has the names, periods and qualifiers asked for; if the program which makes it fails at any point an error is raised and nothing is left behind or moved.
     Playlists and packing lists which are signed have a valid signature by the leaf of the chain over all that they say, with the whole chain in it.''',
     ['inputs', 'faults', 'configurations'], 'all lists of certificates in all orders, all keys, all texts, and every failure of the openssl program',
     'tests check a few orders of one chain and a few certificates', ['src/certificate.cc', 'src/certificate_chain.cc', 'src/cpl.cc', 'src/pkl.cc', 'src/local_time.cc'],
     [('Certificate', 'src/certificate.cc'), ('CertificateChain', 'src/certificate_chain.cc')], ['accessors', 'exceptions', 'files', 'signed documents'],
     technique='exhaustive enumeration of lists of certificates, layouts, damage and failures, judged with OpenSSL and xmlsec directly', note=SHIMS)

prop('C27', 'Subtitles and captions are kept when written and read, and compared fully',
     '''Whatever texts and images are put into a subtitle or caption asset of any standard, in any order, the XML or MXF that is written is read back as the same lines, with the same times, fades, positions and alignments,
     and the same look, spacing and content of each part (except for the few things which Interop cannot say), in order of time and then down the screen; as are the titles, fonts, images and other details.
     Attributes which are given on nested elements take effect from the inside out; those which are left out have their defaults; what is not text is not shown.  Encrypted assets give nothing without their key or with a wrong one, and everything with it.
     Two assets or texts are equal, whichever is asked, exactly when all that they say is the same.  The texts in a period are those that are on screen, or start, in it.''',
     ['inputs', 'histories', 'configurations'], 'all texts with all properties, in all orders and standards, and all ways of writing them in XML',
     'tests compare a few literal assets', ['src/text_asset.cc', 'src/text_asset_internal.cc', 'src/interop_text_asset.cc', 'src/smpte_text_asset.cc', 'src/text.cc', 'src/text_string.cc', 'src/text_image.cc', 'src/load_variable_z.cc', 'src/ruby.cc'],
     [('TextAsset', 'src/text_asset.cc'), ('SMPTETextAsset', 'src/smpte_text_asset.cc'), ('InteropTextAsset', 'src/interop_text_asset.cc')], ['texts(), fonts and details after reading; files; equals(); texts_during()'],
     technique='exhaustive enumeration of texts, orders, layouts and keys against a model of what each line shows', note=SHIMS)

prop('C28', 'Sound is written to MXF, and read back, sample for sample',
     '''Whatever samples are given to a sound asset writer, as integers or floats, in blocks of any sizes, at any frame rate, with any number of channels and of extra channels, the asset holds exactly those samples in order (limited to the range of 24 bits), then silence to the end of its last frame,
     with the length, rates, channels, labels and language asked for.  Encrypted sound needs its key.  A sync signal, if asked for, is in channel 14 and says the number of each edit unit and the ID of the asset; rates at which there is no such signal are refused.
     Sound written by others with 16 or 24 bits is read as it is.  Two sound assets are equal exactly when they have the same form and no sample differs by more than is allowed; comparing with some other kind of asset says that they differ.''',
     ['inputs', 'histories', 'configurations'], 'all samples, ways of dividing them, rates, channels, standards and keys',
     'tests write one asset and check its hash', ['src/sound_asset.cc', 'src/sound_asset_writer.cc', 'src/sound_frame.cc', 'src/fsk.cc', 'src/mxf.cc', 'src/asset_writer.cc'],
     [('SoundAsset', 'src/sound_asset.cc'), ('SoundAssetWriter::write', 'src/sound_asset_writer.cc'), ('SoundFrame', 'src/sound_frame.cc')], ['samples read back', 'descriptors', 'exceptions', 'equals()'],
     technique='exhaustive enumeration of values, divisions into blocks and formats, against a model of the samples', note=SHIMS)

prop('C29', 'Pictures and Atmos are kept frame by frame, through crashes, and compared fully',
     '''Whatever frames are written to a 2D, 3D, MPEG2 or Atmos asset, in either standard and with or without encryption, reading it gives those frames, in order, with the sizes, rates, length and IDs that it was given; nothing else is read, frames which do not exist are refused,
     and a file of one kind is not taken for another.  An encrypted frame is not given without its key, nor, when checks are on, if any byte of it has been changed.
     If writing is stopped at any point, any number of times, carrying on over the frames that were kept, from what each write said of its frame, gives the file that would have been written at once.
     Two picture assets are equal, whichever is asked, exactly when they are of the same kind, form and length and no picture differs from its pair by more than the mean and standard deviation allowed.''',
     ['inputs', 'histories', 'crash points', 'configurations'], 'all sequences of frames, every interruption of writing, every damage to a frame, and all pairs of pictures and limits',
     'tests write and read a few literal assets', ['src/j2k_picture_asset.cc', 'src/j2k_picture_asset_writer.cc', 'src/j2k_picture_asset_writer_common.cc', 'src/mono_j2k_picture_asset.cc', 'src/mono_j2k_picture_asset_writer.cc', 'src/stereo_j2k_picture_asset.cc', 'src/stereo_j2k_picture_asset_writer.cc', 'src/stereo_j2k_picture_frame.cc', 'src/mono_j2k_picture_frame.cc', 'src/mpeg2_picture_asset.cc', 'src/mpeg2_picture_asset_writer.cc', 'src/atmos_asset.cc', 'src/atmos_asset_writer.cc', 'src/asset_reader.h', 'src/frame.h', 'src/mxf.cc', 'src/crypto_context.h'],
     [('MonoJ2KPictureAssetWriter', 'src/mono_j2k_picture_asset_writer.cc'), ('StereoJ2KPictureAssetWriter', 'src/stereo_j2k_picture_asset_writer.cc'), ('J2KPictureAsset::frame_buffer_equals', 'src/j2k_picture_asset.cc'), ('AssetReader', 'src/asset_reader.h')], ['frames read back', 'files', 'descriptors', 'exceptions', 'equals()'],
     technique='exhaustive enumeration of sequences of frames and of a stop at each system call, against a model of the frames', note=SHIMS)

prop('C30', 'Colours and pictures are converted and compressed without loss of their sense',
     '''With any colour conversion, an RGB picture in any shape of memory becomes the XYZ that the conversion says, limited to 12 bits, and an XYZ picture the RGB or RGBA that it says, with a note of any value out of range; nothing outside the picture is touched; colours which fit come back the same.
     Compression gives a codestream of the right profile, with its comment, within the size asked for, which is decompressed to the picture, nearly, or to a smaller one of the size that it says.
     Data which is not a whole codestream gives an error, or a whole picture, and never anything else or no answer at all.''',
     ['inputs', 'faults', 'configurations'], 'all conversions, colours, shapes of memory, sizes and limits, and all damage to a codestream',
     'tests check a few pictures', ['src/rgb_xyz.cc', 'src/piecewise_lut.h', 'src/j2k_transcode.cc', 'src/openjpeg_image.cc', 'src/colour_conversion.cc'],
     [('rgb_to_xyz, xyz_to_rgb, xyz_to_rgba', 'src/rgb_xyz.cc'), ('compress_j2k, decompress_j2k', 'src/j2k_transcode.cc'), ('OpenJPEGImage', 'src/openjpeg_image.cc')], ['pictures', 'codestreams', 'notes', 'exceptions'],
     technique='exhaustive enumeration of colours, conversions, sizes and damage, against the matrices and curves of the conversion', note=SHIMS)

prop('C31', 'Verification of a package says all that is wrong with it and nothing else',
     '''Whatever is wrong with a DCP (missing, renamed, damaged or misdescribed files; hashes, IDs, durations, markers, languages, areas and rates which break a rule of the standards or of Bv2.1; texts which are too long, too soon, too short or too many;
     pictures which are too large or badly coded; encryption without a signature; documents which do not follow their schemas), verify() gives a note of it, with the right particulars, once, and carries on with the rest; it gives no note of what is not wrong.
     It says so of any reel, asset or frame rate, just beyond each limit and not at it, for both standards, with and without keys, whatever else is wrong, and of several DCPs at once what it says of each alone.''',
     ['inputs', 'configurations', 'histories'], 'all single changes to ten kinds of package, all pairs of changes to one, all arrangements of playlists in packing lists, and pairs of packages',
     'tests make one wrong package for each note', ['src/verify.cc', 'src/verify_j2k.cc', 'src/verify_internal.h', 'src/dcp.cc', 'src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/reel.cc', 'src/reel_asset.cc', 'src/reel_file_asset.cc', 'src/asset.cc', 'src/ref.cc'],
     [('verify', 'src/verify.cc'), ('verify_j2k', 'src/verify_j2k.cc'), ('DCP::read', 'src/dcp.cc')], ['notes', 'exceptions'],
     technique='exhaustive enumeration of packages and of changes to them, against a list of notes made from a model of the package', note=SHIMS)


prop('C32', 'Codestreams and texts are judged rightly, and notes are ordered and told rightly',
     '''Of any sequence of bytes given as a JPEG2000 codestream, verify_j2k says each thing that breaks a rule for cinema (profile, tile size, tile parts and their size at any rate, code blocks, guard bits, POC and TLM markers), with the right values, up to the first thing which makes it invalid, and reads nothing outside the data.
     Of any texts it finds whether more than three lines, or lines longer than the limits, are on the screen at once. Every kind of note has its severity and its words, which give all its particulars; equality of notes is of all their particulars, and they have one total order.
     A report (text, HTML or PDF) of any packages and notes has each note once, in the section of its playlist or at the end, with its severity, and no text of a package can change the structure of the report.''',
     ['inputs', 'configurations'], 'all single and many double changes of fields, sequences of marker segments, cuts and bytes; all small sets of texts; all kinds of note and pairs of notes; all small reports',
     'tests look at one codestream for each note, a few texts and one report', ['src/verify_j2k.cc', 'src/verify.cc', 'src/verify.h', 'src/verify_report.cc', 'src/html_formatter.cc', 'src/pdf_formatter.cc', 'src/text_formatter.cc', 'src/formatter.h', 'src/stream_formatter.h', 'src/verify_internal.h'],
     [('verify_j2k', 'src/verify_j2k.cc'), ('verify_text_lines_and_characters', 'src/verify.cc'), ('note_to_string', 'src/verify.cc'), ('verify_report', 'src/verify_report.cc')], ['notes', 'reports'],
     technique='exhaustive enumeration of codestreams, texts, notes and reports, against a model of the rules', note=SHIMS)


prop('C33', 'Combining and finding packages loses, changes and invents nothing',
     '''Combining any packages of one standard makes a package with every playlist, asset and font of each exactly once, whatever their names and whether they share assets, fonts or playlists: asset files are the same byte for byte, playlists and Interop texts say the same (but for the names of fonts, and signatures), fonts and images are those that each text had, and all hashes, sizes and paths are those of the files.
     The inputs, and files which are already in the output directory, are not touched; the metadata and signature are those asked for; packages of different standards are refused.
     Looking for playlists in directories finds those of the packages which are there and resolves what can be; looking for packages in a tree finds each directory with an asset map which is not inside another. The digests, base 64, ids, paths, unique names, lengths of text, days and indentation which this is made with are right for every input, and failures to read or write files are reported.''',
     ['inputs', 'configurations'], 'all short lists of packages of 16 kinds, all small trees of directories, and inputs of the tools of all small sizes',
     'tests combine a few pairs of packages and look at few of the tools', ['src/combine.cc', 'src/search.cc', 'src/util.cc', 'src/util.h', 'src/dcp.cc', 'src/interop_text_asset.cc', 'src/font_asset.cc', 'src/asset.cc', 'src/metadata.cc'],
     [('combine', 'src/combine.cc'), ('find_potential_dcps', 'src/search.cc'), ('find_and_resolve_cpls', 'src/search.cc'), ('make_digest', 'src/util.cc')], ['combining', 'finding packages', 'digests'],
     technique='exhaustive enumeration of lists of packages, trees and inputs, with the results read back and compared', note=SHIMS)


prop('C34', 'A failure to write or read a file is never passed off as success',
     '''Whatever system call fails, and however, while anything is written (playlists, packing lists, asset maps, whole and combined packages, picture, sound, Atmos and subtitle assets with their fonts and images, KDMs, strings) or read (assets, texts, packages, digests, strings), the operation either reports an error or gives exactly what it gives when nothing fails: no file is left short, empty or out of date and no data is lost without an exception.
     Partial transfers are carried on with. A damaged package is never found good because part of it could not be read. Nothing crashes.''',
     ['faults', 'inputs'], 'every failure of every system call in 67 operations',
     'tests do not look at failures of the disk', ['src/interop_text_asset.cc', 'src/smpte_text_asset.cc', 'src/encrypted_kdm.cc', 'src/util.cc', 'src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/dcp.cc', 'src/combine.cc', 'src/sound_asset_writer.cc', 'src/atmos_asset_writer.cc', 'src/mono_j2k_picture_asset_writer.cc', 'src/stereo_j2k_picture_asset_writer.cc', 'src/mono_mpeg2_picture_asset_writer.cc', 'src/asset_writer.cc', 'src/text_image.cc', 'src/data.cc', 'src/array_data.cc', 'src/exceptions.cc'],
     [('InteropTextAsset::write', 'src/interop_text_asset.cc'), ('SMPTETextAsset::write', 'src/smpte_text_asset.cc'), ('EncryptedKDM::as_xml', 'src/encrypted_kdm.cc'), ('file_to_string', 'src/util.cc')], ['failures', 'writing', 'reading'],
     technique='fault enumeration at every system call, by tracing the real code', note=SHIMS)


prop('C35', 'The command-line tools do what they say, and their exit status is right',
     '''dcpdiff exits with 0 exactly when two packages are the same apart from what its options allow, whichever is first, and otherwise says what differs. dcpverify exits with failure exactly when there are errors, says each thing that verification found and is not told to ignore, once and in order, and writes the same in the report it is asked for. dcpinfo gives the ids, entry points, lengths, sizes, texts and total time of each reel, and only the kinds of information which are asked for. dcpkdm gives the details of each KDM and its keys. dcpdumpsub gives the XML of an asset and writes its fonts to the current directory and nowhere else. dcpdecryptmxf writes an unencrypted asset with the same frames. dcpdumpimage writes the frame which is asked for, counting from the start of the playlist. dcprecover writes a package which reads back with the same playlist and right hashes, and leaves the assets alone. dcpthumb gives the thumbprint of a certificate.
     Without the right keys, or given something missing, damaged or of another kind, a tool exits with failure, says why and shows no key; it is never killed by a signal. Nothing but the output which was asked for is written.''',
     ['inputs', 'configurations'], 'options and inputs of each tool together, to the bounds of the check',
     'no test runs the tools', ['tools/dcpdiff.cc', 'tools/dcpinfo.cc', 'tools/dcpverify.cc', 'tools/dcpkdm.cc', 'tools/dcpdumpsub.cc', 'tools/dcpdecryptmxf.cc', 'tools/dcpdumpimage.cc', 'tools/dcprecover.cc', 'tools/dcpthumb.cc', 'tools/common.cc'],
     [('main', 'tools/dcpdiff.cc'), ('main_picture', 'tools/dcpinfo.cc'), ('main', 'tools/dcpverify.cc'), ('filter_notes', 'tools/common.cc')], ['tools', 'exit status', 'output'],
     technique='exhaustive enumeration of bounded option sets and inputs, running the real programs', note=SHIMS)

prop('C36', 'Malformed files are refused with an error about them, and never crash',
     '''Whatever is in a CPL, PKL, asset map, subtitle document, KDM, certificate, codestream or whole package, reading it either succeeds, and then what was read can be used, or fails with an exception which says that something is wrong with the file: never with one for a mistake in the program, an assertion, a logic error or too much memory being asked for, and never by crashing, dividing by zero, going outside memory or not finishing.
     Verification of a package always ends with its notes, whatever is in its documents, and never with an exception because of what is in them.''',
     ['inputs'], 'any contents; single changes to well-formed documents, to the bounds of the check',
     'a few tests of bad XML; none of the crashes that were found', ['src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/text_asset.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc', 'src/encrypted_kdm.cc', 'src/certificate.cc', 'src/certificate_chain.cc', 'src/types.cc', 'src/verify.cc', 'src/dcp.cc', 'src/local_time.cc', 'src/verify_j2k.cc'],
     [('verify', 'src/verify.cc'), ('CPL', 'src/cpl.cc'), ('parse_texts', 'src/text_asset.cc'), ('LocalTime', 'src/local_time.cc')], ['parsing', 'malformed input', 'robustness'],
     technique='exhaustive enumeration of bounded changes to well-formed inputs on the real code', note=SHIMS)


def write():
    import checks
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + '\n')
    out, na = [], []
    for p in PROPERTIES:
        c = CLAIMS[p['id']]
        if c['na']:
            na.append({'property': p['id'], 'reason': c['na']})
            continue
        assert checks.CHECKS[p['id']]['level'] == c['level'], p['id']
        out.append({
            'property': p['id'],
            'quick_cmd': f'python3 mc/run.py {p["id"]}',
            'thorough_cmd': f'python3 mc/run.py {p["id"]}',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': c['technique'],
            'level': c['level'],
            'level_note': c['note'],
        })
    assert set(checks.CHECKS) == {o['property'] for o in out}, set(checks.CHECKS) ^ {o['property'] for o in out}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': 'python3 mc/setup.py',
            'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the sources of /repo as they are', 'source_commits': []},
            'checks': out,
            'not_applicable': na,
            'notes': 'One runner (mc/run.py) builds each check from the working tree of /repo by content, explores in parallel processes, and confirms a violation by replaying its case before reporting it.',
        }, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    write()
