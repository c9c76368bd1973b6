"""The registered checks: what each is built from and how it is run"""

import os

import build as b

H = os.path.join(b.VERIF, 'harness')


def core(name, **kw):
    return dict(dict(harness=[f'{name}.cc'], sources='core', flavour='asan', level='model_checking', shards=8), **kw)


def full(name, **kw):
    return core(name, **dict(dict(sources='full'), **kw))


CHECKS = {
    'C01': core('c01_localtime_order', bounds='all pairs from 3 grids of 128 field combinations x 13 (23) offsets; 15 dates in other centuries x 35 offsets and every value of each field, all pairs'),
    'C02': core('c02_localtime_text', bounds='all field values at two corners; all fractions to 4 (5) digits; all texts within 1 edit, and 2 edits over 13 characters, of 8 templates'),
    'C03': core('c03_localtime_arithmetic', bounds='all single steps from every day of 2011-2016; operation histories to depth 4 (6) over 14 operations; steps of up to centuries, thousands of months and 2^31 minutes or ms from 18 years'),
    'C04': core('c04_localtime_make', bounds='400 dates x 7 time zones for each construction; every day of 1970-2052 x 8 offsets as time_t; every year to 9997 x 4 offsets; the present on each side of 156 changes of the clocks in 6 places, (492), with the clock moving on after none or one of the first 6 looks'),
    'C05': core('c05_luts', bounds='8 curves x 9 ranges x 1-16 bits x 5 scales; pairs of ranges which differ by 2^-3 to 2^-25; request histories of length 3 (5) over 22 requests; every allocation failing'),
    'C06': core('c06_threads', harness=['c06_threads.cc', 'schedules.cc'], plain=['schedules.cc'], flavour='sched',
                link=['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp snprintf sprintf vsnprintf strlen strcpy strncpy strftime'.split())],
                bounds='2 and 3 threads of 1-2 requests from 6, every schedule with at most 4 (6) pre-emptions; 9 presets on first use; each allocation failing; every pair of 16 things done with objects of their own'),
    'C07': core('c07_piecewise', bounds='5 curves x 323 (643) table shapes x every table point and 4 points around it'),
    'C08': core('c08_colour', bounds='9 presets; 7^3 primaries x 5 whites x 8 adjusted whites x 2 ways of making'),
    'C09': core('c09_about_equal', bounds='all pairs of conversions and functions with one component moved by 11 steps, 3 epsilons'),
    'C10': core('c10_bitstream', bounds='all bytes, 533 words, 136 polynomials; histories to depth 6 (7) over 9 operations; sections of up to 150 bytes and many sections'),
    'C11': core('c11_fsk', bounds='all messages to 14 (18) bits; all divisions of messages to 8 (10) bits into blocks, and of messages to 6 (8) bits with empty ones; messages of up to 600 bits'),
    'C12': core('c12_name_format', bounds='all specifications of up to 5 (7) characters from 8, 4 sets of values, 5 ignore lists, 3 suffixes; every character; values and specifications of up to 300 characters'),
    'C13': core('c13_canonical', unprivileged=True, bounds='all paths of up to 5 (6) components from 9 in 4 places, with and without a final slash; long paths, odd names and chains of links'),
    'C14': core('c14_filesystem', unprivileged=True, bounds='histories to depth 2 (3) over 295 operations from 10 trees, merged on the whole tree; names of 40 odd kinds, hundreds of files, deep directories, sizes to 2^33, times, all permission modes'),
    'C15': core('c15_file', bounds='operation histories of length 3 (4) over 13 operations, 8 modes, 4 starts; contents of up to 5 (6) bytes from 7 by each way of writing and reading; single writes of 2^31 to 2^32+5 bytes; ownership histories to depth 4 (5) over 30 operations; amounts around every buffer size by 3 ways each of writing and reading'),
    'C16': core('c16_data', level='fault_enumeration', rule='each evaluation is one execution with a distinct set of injected failures or crash point; distinct_nontrivial counts distinct pairs of failures and result',
                bounds='56 histories x every system call x 4 errors, partial transfers and crashes, and every pair of these; sizes to 40 MB'),
    'C17': core('c17_names', bounds='every mixture of case and every single edit of each name; all strings of up to 3 letters'),
    'C19': full('c19_time', bounds='all pairs of 1700 times at 13 rates; every editable unit of a second at each rate, every frame of 12 seconds, conversions between all rates; all shapes of text of up to 5 parts'),
    'C20': full('c20_language_tag', bounds='every subtag in 3 mixtures of case and 5 near-misses; all texts of up to 5 (6) parts from 15; all histories to depth 4 (5) over 18 operations'),
    'C21': full('c21_conversions', bounds='every value of 8 and 16 bit types and boundary values of the others; 5700 reals at 16 precisions; all message formats of up to 4 (5) pieces from 9 with 25 pairs of arguments; every name and single edit; 130 thousand colours; all pairs of 361 fractions'),
    'C22': full('c22_sound_configuration', bounds='every id in all mixtures of case and with every edit; all texts of up to 3 channels from 18 and 10 fields, and of up to 19 channels; all histories to depth 3 (4) over 16 operations from 11 configurations'),
    'C23': full('c23_cpl', bounds='6 CPLs (Interop, SMPTE without metadata, with it, with two reels and sound descriptors, and both with all kinds of asset) with every one and (for the first four) every two of about 160 changes; equality of all pairs'),
    'C24': full('c24_dcp', bounds='histories of building, writing, reading and changing a DCP of either standard: an addition, up to 2 (3) of 14 operations and a write'),
    'C25': full('c25_kdm', bounds='120 sets of options, all lists of up to 3 (4) keys of 4 types, 4 signers x 4 recipients x 4 formulations, 64 pairs of texts, 21 periods; 1200 periods around the ends of each certificate; every shortening, removal of an element and change to an encrypted key; all 512 sets of 9 kinds of asset x 8 ways of giving keys'),
    'C26': full('c26_certificates', bounds='all lists of up to 3 of 10 certificates and all chains of 4; 150 certificates; 130 line lengths x 4 line endings; every character of a certificate cut, changed or removed; chains made with keys from 8 and each command failing; 9 chains x 2 standards x 4 documents signed'),
    'C27': full('c27_text', bounds='one text with every value of 24 properties and every two together, in 4 standards; two texts which differ in up to two; up to 5 with all combinations of 1-4 looks in 3 ways of being next to each other; all lists of up to 3 (4) of 13; all contents of up to 3 (4) of 12 characters; all ways of giving two of 9 attributes on 3 nested elements; 144 encrypted or plain assets; 40 font lists'),
    'C28': full('c28_sound', bounds='every power of two and neighbours of samples given as integers or as floats, and all 16-bit values; all divisions of 9 lengths into blocks at 7 places x 6 ways of giving them; 18 rates x 1-16 channels x 2 standards x extra channels x MCA; sync signals at 9 rates x 3 channel counts x 5 divisions; 16- and 24-bit files of others; assets which differ in each sample, channel, rate or kind'),
    'C29': full('c29_picture', bounds='5 kinds of asset x 2 standards x encryption x all sequences of up to 3 (4) frames of 4; every change of a byte of an encrypted frame record; a stop at each system call of writing each kind, and each pair of stops, then carrying on; 64 pairs of pictures x 4 places x 16 pairs of limits; lengths 1-3 x rates; all pairs of kinds'),
    'C30': full('c30_image', bounds='10 conversions x 6 sets of colours (every corner, edge and grey, values out of range) x 3 shapes of memory, each way; 5 sizes x 4 scenes x 2K/4K x 2D/3D x 2 rates, reduced by 2-16, with 3 limits of size; every shortening of a codestream, and 8 values of each of its first 300 (1000) bytes'),
    'C31': full('c31_verify', link=['-Wl,--wrap=_ZN11xercesc_3_217AbstractDOMParser5parseEPKc,--wrap=_ZN11xercesc_3_217AbstractDOMParser5parseERKNS_11InputSourceE'],
                bounds='ten well-formed packages (2D, 3D, texts, encrypted with and without keys, Interop, five frame rates) with every one of up to 150 changes, and one with every two; the times of two texts and another in the next reel; up to three playlists in three packing lists; pairs of packages; values against the schemas'),
    'C32': full('c32_notes',
                bounds='2K and 4K codestreams with some 2000 (all) values of fields, 4 (all) values of every two fields, all sequences of up to 5 (6) of 11 marker segments, every cut and every value of every byte; up to 3 texts of 48 kinds, 4 of 40; 120 kinds of note; all pairs of 700 notes; 9 shapes of package with up to 3 notes of 6 kinds in every place; up to 4 (5) of 7 pieces of text'),
    'C33': full('c33_combine',
                bounds='all ordered lists of 1-3 of 8 SMPTE or 8 Interop packages, with the names of their files free or taken, signed or not, alone or with a package of the other standard; all lists of up to 3 of the same packages or a missing directory to search; all trees of 7 places with 5 kinds of thing; files of 20 sizes up to 3 MB; base 64 of up to 69 bytes with line ends everywhere; pairs of 585 ids, of 85 paths and of 54 days; up to 4 of 10 characters; XML of up to 6 elements'),
    'C34': full('c34_faults', flavour='opt',
                bounds='67 operations (documents of both standards, short and long, signed or not; each kind of asset, plain or encrypted; KDMs; strings, images and digests; making, reading, finding, combining and verifying packages): every system call on the files, with an input/output error, no room there or from there on, too many open files, no permission, or 1, half or all but 1 of the bytes transferred'),
    'C35': full('c35_tools', flavour='opt', tools=True,
                bounds='9 tools: 10 kinds of unreadable thing in each place; up to 3 (4) of 4 KDMs with 3 keys; 168 subtitle assets and keys; 648 MXFs, types and keys; 34 packages x 64 kinds of information x 2 (32) sets of options, and 30 more; 18 changes to packages and every two of them x up to 64 sets of options; 500 damaged packages x 4 places to recover to with; 9 packages x 64 sets of options x up to 6 reports; every frame of 22 packages'),
    'C36': full('c36_malformed', link=['-Wl,--wrap=_ZN11xercesc_3_217AbstractDOMParser5parseEPKc,--wrap=_ZN11xercesc_3_217AbstractDOMParser5parseERKNS_11InputSourceE'],
                bounds='CPL, PKL and asset map of both standards, Interop and SMPTE subtitles, a KDM, certificates, a chain and a codestream: each element deleted, repeated, renamed, emptied, moved, put in itself or in another namespace, each value and attribute replaced by each of 67 others, each (or every few) bytes changed to up to 7 others, left out, or the rest cut off; two whole packages with each document changed so, or a file cut short'),
    'C18': core('c18_scope_guard', bounds='histories to depth 6 (7) over 15 operations on 3 guards'),
}


def build(check):
    harness = [os.path.join(H, h) for h in check['harness']]
    sources = {'core': b.core_sources, 'full': b.full_sources, 'none': lambda: []}[check['sources']]()
    return b.build(check['id'], harness, sources, check['flavour'], extra_flags=check.get('flags', ()),
                   libs=check.get('libs', ()), extra_link=check.get('link', ()), plain=[os.path.join(H, p) for p in check.get('plain', ())],
                   shim='full' if check['sources'] == 'full' else 'include', programs=b.tools() if check.get('tools') else None)
