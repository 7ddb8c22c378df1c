#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
B='src/eventio/base.py'; T='src/eventio/tools.py'; H='src/eventio/header.pyx'; V='src/eventio/var_int.pyx'
S='src/eventio/simtel/objects.py'; PX='src/eventio/simtel/parsing.pyx'; SF='src/eventio/simtel/simtelfile.py'
I='src/eventio/iact/objects.py'; IF='src/eventio/iact/__init__.py'; HI='src/eventio/histograms.py'
p('C01','Object headers are decoded exactly from their bytes',
 'For every header byte string the reader reports exactly the type, version, id, user/extended/sub-object flags, content size (30 bits plus the 12-bit extension when flagged), header size and content address that the eventio format assigns to those bytes, for top-level and nested headers alike. A top-level object needs the little-endian sync marker: the big-endian one is refused as unsupported and anything else as invalid. A header that is cut short is reported as a truncated file, never as data.',
 ['inputs'],'all 2^96 header words, all 2^32 extension words, every offset, top-level or nested',
 'Tests decode a handful of literal headers; the bit fields, sign of the id and the 42-bit length only show at values no sample file contains.',
 [H,B,'src/eventio/constants.py'],[('header word unpacking','header.pyx parse_header_bytes'),('extension handling','base.py read_header/parse_extension_field'),('sync check','base.py read_sync_marker/check_sync_bytes')],
 ['attributes of the header of any object'])
p('C02','Variable-length integers decode to the value and length the format defines',
 'For every byte string, reading a signed or unsigned variable-length integer yields the value the format assigns to its 1..9 byte encoding and consumes exactly that many bytes, whether it is read alone, from a stream, at an offset, or as part of an array. Reading an array of n of them equals reading n single ones one after the other and reports the sum of their lengths.',
 ['inputs'],'all encodings of length 1..9, all values representable in 64 bits, all offsets, all array lengths',
 'Tests sample a few values per length; sign and high-bit handling differ between the scalar and array readers only for extreme values.',
 [V,T],[('length from first byte','var_int.pyx get_length_of_varint'),('value assembly','var_int.pyx parse_varint, varint, unsigned_varint'),('array loops','var_int.pyx varint_array, unsigned_varint_array'),('stream readers','tools.py read_varint, read_unsigned_varint')],
 ['return values and stream position'])
p('C03','Differential sample arrays decode to running sums of their deltas',
 'For every buffer, number of arrays and array length, each decoded array is the running sum modulo 2^32 of the signed deltas encoded in it, every array starts again from zero, and the number of bytes reported as consumed is the total length of the encodings read.',
 ['inputs'],'all buffers, all numbers of arrays, all lengths, all delta encodings of 1..5 bytes',
 'Tests compare two recorded traces; the 3..5 byte branches and the restart between arrays are hardly exercised.',
 [V],[('delta decoding','var_int.pyx unsigned_varint_array_differential'),('per-array restart','var_int.pyx unsigned_varint_arrays_differential')],['returned matrix and byte count'])
p('C04','Reading an object never leaves its own payload',
 'Whatever sequence of reads and seeks is made on an object, the bytes returned are exactly the bytes of its payload at the reported position, a read never returns bytes outside the payload, and the reported position advances by the number of bytes returned. Reading to the end returns all remaining payload bytes and then nothing.',
 ['histories','inputs'],'all histories of read(size)/seek(offset, whence)/tell on one object, all sizes including negative and oversized ones, all payload addresses and sizes',
 'Tests read a few sample objects front to back; positions past the end, negative sizes and mixed histories are not covered.',
 [B],[('clamping to remaining payload','base.py EventIOObject.read'),('address translation','base.py EventIOObject.seek')],
 ['EventIOObject.read/seek/tell'],[('_pos','position relative to payload start','base.py EventIOObject')])
p('C05','Walking a file yields every object once, in order, whatever else is read',
 'Iterating over a file, or over an object that only contains sub-objects, yields each contained object exactly once in storage order with its own header and payload, and stops exactly at the end. Reading, seeking or parsing any object in between does not change which object comes next, and looking ahead at the next object does not consume it.',
 ['histories','inputs'],'all files and containers, all interleavings of iteration with reads/seeks/look-ahead',
 'Tests iterate sample files without disturbing the file position, or with one fixed disturbance.',
 [B,H],[('absolute position of the next header','base.py EventIOFile._read_next_object'),('sub-object position','base.py EventIOObject.__next__'),('look-ahead slot','base.py EventIOFile.peek')],
 ['next(file), next(object), peek()'],[('_next_header_pos','where the next header starts','base.py')])
p('C06','Forward-only access through a decompressor pipe equals seekable access',
 'For every history of forward reads and seeks within the data, a compressed file read through a decompression pipe returns the same bytes and reports the same positions as the same content in a plain seekable file. Seeking backwards or relative to the end is refused with an I/O error and leaves the position unchanged.',
 ['histories','inputs'],'all forward histories of read/seek/tell, all contents',
 'Tests compare whole-file iteration of two sample files; arbitrary read/seek histories are not tried.',
 [B],[('position bookkeeping','base.py PipeWrapper.read/seek/tell'),('choice of the access path','base.py EventIOFile.__init__')],['read/seek/tell of the file handle'],[('pos','bytes consumed so far','base.py PipeWrapper')])
p('C07','Truncated data is reported, never returned as if complete',
 'If the file ends before the end of an object, reading the missing part raises the end-of-file error and no shortened data is returned. No block parser returns a result after having been handed fewer bytes than it needed, and no compiled parser reads outside the buffer it was given.',
 ['inputs','crash_points'],'every truncation point of every file and every payload length of every block type',
 'Tests cut a few sample files at a few places.',
 [B,S,I,V,PX,T],[('short read detection','base.py EventIOObject.read, tools.py readers'),('bounds in compiled code','var_int.pyx, simtel/parsing.pyx')],['exceptions raised by read/parse'])
p('C08','Unsupported block versions are refused, supported ones accepted',
 'For each block type that restricts its versions, parsing a block whose version is not supported raises an unsupported-version error before any payload is interpreted, and every supported version is accepted. No version number in the 12-bit range is silently decoded with the layout of a different version.',
 ['inputs'],'all 4096 version numbers for every block type',
 'Sample files contain one version per block.',
 ['src/eventio/version_handling.py',S,I,HI,PX],[('version guards','version_handling.py assert_*')],['NotImplementedError from parse()'])
p('C09','Object types, telescope ids and flags map to the right reader and telescope',
 'Every object type is opened with the reader class of that type and unknown types with the generic one; the type numbers of per-telescope events and tracking positions map one-to-one to telescope ids. Telescope, array and code numbers and flags that are packed into ids are unpacked to exactly the packed values.',
 ['inputs'],'all 65536 object types, all 32-bit ids, all telescope ids 0..999',
 'Tests use telescope ids below 128 from one configuration.',
 [S,I,IF,'src/eventio/simtel/__init__.py',B],[('type registry','KNOWN_OBJECTS'),('id formulas','simtel/objects.py *.__init__, TrackingPosition/TelescopeEvent')],['class and telescope_id of every object'])
p('C10','Run and camera configuration blocks decode to the stored values',
 'For every well-formed run header, Monte-Carlo run header, camera settings, camera organisation, pixel settings, disabled pixels, software settings, pointing correction or drive settings block of any supported version, each field of the parsed result equals the value stored at the place the format assigns to it, with the right shape and number type, for any number of pixels, gains, sectors, mirrors and telescopes.',
 ['inputs'],'all payloads, all supported versions, all counts',
 'Tests read one camera configuration; other versions and counts never occur in the sample files.',
 [S,'src/eventio/simtel/runheader_dtypes.py','src/eventio/simtel/pixelset.py',PX,V],[('block layouts','simtel/objects.py RunHeader..DriveSettings'),('sector lists','parsing.pyx/var_int.pyx read_sector_information_v1/v2')],['parse() results'])
p('C11','Array-event and image blocks decode to the stored values',
 'For every well-formed trigger information, telescope event header, tracking position, image parameters, stereo reconstruction, pixel timing, pixel list, pixel trigger times or auxiliary trace block of any supported version and flag combination, each field of the parsed result equals the value stored at the place the format assigns to it, absent optional parts are absent, and misplaced trigger type bits written by old simulations are moved to their proper place.',
 ['inputs'],'all payloads, supported versions, flag combinations, counts, and pixel lists',
 'Sample events have one flag combination and one version.',
 [S,V],[('block layouts','simtel/objects.py TriggerInformation..AuxiliaryAnalogTraces'),('timing lists','var_int.pyx simtel_pixel_timing_parse_list_type_1/2')],['parse() results'])
p('C12','ADC sums and samples land at the right gain, pixel and time slice',
 'For every well-formed ADC block, in full and zero-suppressed form, each stored value appears in the result at exactly the gain, pixel and sample it was recorded for, and suppressed pixels are zero. Unsupported reduction modes are refused.',
 ['inputs'],'all pixel counts, gains, sample counts, zero-suppression patterns and pixel ranges',
 'Sample files use one zero-suppression mode and one pattern per event.',
 [S,V],[('full blocks','simtel/objects.py ADCSums.parse, ADCSamples._parse_in_not_zero_suppressed_mode'),('zero suppression','ADCSums.parse modes 1 and 2, ADCSamples._parse_in_zero_suppressed_mode')],['parse() results'])
p('C13','Monte-Carlo, monitoring and calibration blocks decode to the stored values',
 'For every well-formed shower, event, photo-electron sum, camera monitoring, laser calibration, pixel monitoring or photo-electron block of any supported version and flag combination, each field of the parsed result equals the value stored at the place the format assigns to it, including nested extra parameters and profiles, for any number of telescopes, pixels, gains and entries.',
 ['inputs'],'all payloads, supported versions, flag combinations and counts',
 'Sample files hold one version and flag combination each.',
 [S,PX,V,I],[('block layouts','simtel/objects.py MCShower..PixelMonitoring'),('photo-electron lists','var_int.pyx parse_1208')],['parse() results'])
p('C14','CORSIKA/IACT blocks and photon bunches decode to the stored values',
 'For every well-formed IACT block (telescope definition, array offsets, photon bunches, longitudinal data, input card, atmospheric profile, run/event headers and ends) the parsed result equals the stored values, compact photon bunches are scaled as the format prescribes and emitter records are split off. Reading photon bunches in chunks of any size gives the same bunches, each exactly once and in order.',
 ['inputs'],'all payloads, compact and long bunches, all bunch counts and chunk sizes',
 'Tests use one compact and one long file and one chunk size.',
 [I],[('layouts','iact/objects.py'),('scaling','iact/objects.py Photons.parse_compact'),('chunks','iact/objects.py Photons.parse_chunked')],['parse() results'])
p('C15','Histograms, history and metadata decode to the stored values',
 'For every well-formed histogram, history and metadata block the parsed result equals the stored values: all histogram kinds (real and integer, 1- and 2-dimensional, filled or empty), all titles, all command lines and configuration lines, and all key/value pairs.',
 ['inputs'],'all payloads, histogram kinds, title lengths and encodings, numbers of items',
 'Sample files hold only floating-point histograms with ASCII titles.',
 [HI,S],[('histogram layout','histograms.py Histograms.parse'),('history','simtel/objects.py History*')],['parse() results'])
p('C16','Simulated events are assembled from exactly their own blocks',
 'For every sequence of blocks in a file, each air-shower or calibration event delivered contains the data of exactly the blocks that belong to it (its shower, its event, its array data, the telescope data, photo-electron sums and monitoring valid at that time), in file order and each event once. Nothing of one event appears in another, and the last event is delivered even if the file ends early.',
 ['histories','inputs'],'all sequences of top-level blocks and sub-blocks',
 'Tests check two sample files with a fixed block order.',
 [SF],[('event state machine','simtelfile.py SimTelFile._parse_next_object/_read_next_event'),('array event','simtelfile.py parse_array_event, parse_telescope_event')],['iteration over SimTelFile'],[('current_event','event being assembled','simtelfile.py')])
p('C17','Filters only leave things out',
 'Restricting reading to some telescopes, skipping calibration events or skipping untriggered events never changes the content or order of what is still delivered: the events are those of the unrestricted reading that satisfy the filter, each restricted to the allowed telescopes.',
 ['configurations','histories'],'all telescope subsets and both skip options, all block sequences',
 'Tests use one allowed subset on one file.',
 [SF],[('telescope filter','simtelfile.py parse_array_event'),('skip check','simtelfile.py SimTelFile._check_skip/__next__')],['iteration over SimTelFile'])
p('C18','Delivered events do not change when reading continues',
 'An event that has been delivered keeps its content: parsing any further block of the file neither adds to, nor removes from, nor alters the containers of an already delivered event.',
 ['histories'],'all continuations of the file after each delivered event',
 'Tests look at each event once, at the time it is delivered.',
 [SF,IF],[('copies of monitoring data','simtelfile.py SimTelFile._add_monitoring'),('fresh event containers','simtelfile.py _parse_next_object, iact/__init__.py IACTFile.__iter__')],['previously returned events'])
p('C19','CORSIKA events pair each reuse with its own offsets and bunches',
 'For every IACT file, iteration delivers for each shower one event per reuse, in order, with the offsets and weight of that reuse and the photon bunches of exactly the telescopes stored for it, sharing the shower header, longitudinal data, ground particles and end block of the same shower; normal and split files give the same events. A block out of place is an error.',
 ['histories','inputs'],'all numbers of showers, reuses and telescopes, normal and split layout, optional blocks present or absent',
 'Tests read three sample files.',
 [IF],[('event assembly','iact/__init__.py IACTFile.__iter__')],['iteration over IACTFile'])
p('C20','Parsing a block does not depend on what was read from it before',
 'Parsing a block gives the same result whatever was read, sought or parsed on it before, and as often as it is asked for.',
 ['histories'],'every read position and every number of previous parses, for every block type with a parser',
 'Tests parse each object once, right after it was found.',
 [S,I,HI],[('rewind before parsing','parse() methods')],['parse() results'])
p('C21','Searching finds exactly the matching objects, in file order',
 'The search helpers return exactly the objects of the requested kind, or along the requested structure, each once and in depth-first file order, and the limited search returns the first n of them (all if there are fewer).',
 ['inputs'],'all trees of objects, all kinds, structures and limits including zero',
 'Tests search two sample files for one kind.',
 ['src/eventio/search_utils.py'],[('traversals','search_utils.py')],['returned lists and generators'])
p('C22','Cutting a file keeps the longest prefix of whole objects that fits',
 'Cutting a file to a maximum size writes exactly the longest prefix of the uncompressed input that consists of complete top-level objects and does not exceed the maximum, and sizes with k, M or G suffixes mean powers of 1024.',
 ['inputs'],'all files, all sizes and suffixes',
 'Tests cut one sample file once.',
 ['src/eventio/scripts/cut_eventio_file.py'],[('prefix selection','cut_eventio_file.py main'),('size parsing','cut_eventio_file.py parse_size')],['output file'])
p('C23','File kinds are recognised by content',
 'A file is taken as gzip, zstd or eventio data exactly if its content starts with the respective marker (for compressed files: the decompressed content with a sync marker), whatever its name, and opening anything else is refused.',
 ['inputs'],'all file contents, including empty and shorter than a marker',
 'Tests use whole sample files.',
 ['src/eventio/file_types.py',B],[('marker comparison','file_types.py'),('refusal','base.py EventIOFile.__init__')],['is_gzip/is_zstd/is_eventio and the constructor'])
p('C24','Primitive readers return the stored value and advance exactly past it',
 'Each primitive reader (integers of both signs and 2 or 4 bytes, floats, doubles, times, arrays of any type and length, strings with short or variable length prefix) returns the little-endian value stored at the current position and moves the position by exactly the size of its encoding.',
 ['inputs'],'all byte contents, positions, array lengths and string lengths',
 'Tests read a few literal values.',
 [T],[('readers','tools.py')],['return value and stream position'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
