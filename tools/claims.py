B = ('Every obligation generated from the current source of the parsers (Python) for all payloads and all loop '
     'iterations is discharged by Z3, function by function against the specification in specs/blocks.py; parsers '
     'named under coverage.not_proved in the evidence are bounded (random well-formed inputs on the real code). '
     'Trusted: see coverage.trusted_base.')
K = ('Every obligation generated from the current source of the functions under contract (compiled .pyx readers through '
     "Cython's own typed tree, Python readers directly) is discharged by Z3 against the format's definition, for all byte "
     'strings and all iterations; a random comparison of the compiled code with an independent decoder cross-checks the '
     'translation. Trusted: see coverage.trusted_base.')
CLAIMED = {p: ('proof', B) for p in ('C10', 'C11', 'C12', 'C13', 'C14', 'C15')}
CLAIMED.update({p: ('proof', K) for p in ('C01', 'C02', 'C03', 'C24')})
H = ('Bounded: random histories of operations and random files run on the real code and are judged against an independent '
     'reference (specs/files.py, engine/filetask.py, simtask.py, misctask.py); counts are in the evidence.')
CLAIMED.update({p: ('exploration', H) for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C16', 'C17', 'C18', 'C19', 'C20',
                                                'C21', 'C22', 'C23')})
O = ('Step contracts of EventIOObject, EventIOFile, PipeWrapper and the reader classes (engine/objunits.py) are verified on the '
     'current source from every state public operations lead to, for all contents, sizes and positions, and the state after the '
     'step is proved to be such a state again, so every history is covered by induction; the file below is a contract '
     '(read gives the next min(n, rest) bytes). Random histories on the real code cross-check it (bounded, not counted as proved).')
CLAIMED.update({p: ('proof', O) for p in ('C04', 'C05', 'C06')})
CLAIMED['C07'] = ('proof', 'Readers, header functions, compiled integer readers and iteration over truncated files and buffers: every '
                  'obligation discharged for all truncation points. Block parsers on truncated payloads are bounded: random '
                  'well-formed payloads cut anywhere, on the real code.')
CLAIMED['C08'] = ('proof', 'For every restricted block: refusal of every unsupported version for all ids and payloads, and acceptance '
                  'of all supported ones up to the first payload access, discharged by Z3; that a supported version is decoded '
                  'to the end is C10-C15. Random versions and payloads on the real code cross-check it.')
CLAIMED['C09'] = ('proof', 'Numbers in ids and types: discharged for all ids by Z3 class by class. The table of reader classes is '
                  'enumerated completely (all 65536 types) on the real code.')
S = ('Step contracts of %s (engine/%s) over opaque blocks of unknown number, class and content, verified on the current source: '
     'every step from a canonical state is proved to give the specified event and again such a state, so every history is covered '
     'by induction. Random event streams on the real code cross-check it (bounded, not counted as proved). ')
CLAIMED['C16'] = ('proof', S % ('SimTelFile', 'simunits.py') + 'The functions that take array events, telescope events, telescope data, monitoring '
                  'and history apart are proved for any number of sub-blocks; the composition of events uses at most two '
                  'telescopes per array event.')
CLAIMED['C17'] = ('proof', S % ('SimTelFile', 'simunits.py') + 'Selection and skipping are proved for any set of allowed telescopes and any number of '
                  'sub-blocks per array event; the composition of events uses at most two telescopes per array event.')
CLAIMED['C18'] = ('proof', S % ('SimTelFile and IACTFile', 'simunits.py, iactunits.py') + 'State equality up to empty default-dictionary entries.')
CLAIMED['C19'] = ('proof', 'IACTFile over blocks whose class follows from the position in the file (engine/iactunits.py): any number of reuses, '
                  'telescopes and bunches, at most two optional blocks before the data, any class in every place. The split layout '
                  'is bounded (at most three reuses of at most two telescopes), as are the random files on the real code.')
CLAIMED['C20'] = ('proof', 'For every block and version: parsing after any seek gives the specified value again and leaves everything the '
                  'object remembers as it was, for all payloads and positions, discharged by Z3; parsers named under '
                  'coverage.not_proved are bounded (random histories on the real code).')
CLAIMED['C21'] = ('proof', 'Every search function over trees of unknown shape, kind and depth, by structural induction (recursive calls are '
                  'replaced by the contract of the function called); find_type by induction over its while loop, termination not '
                  'proved; generators are proved for the delivered sequence. Random trees on the real code cross-check it (bounded).')
CLAIMED['C22'] = ('proof', 'main of the cutting script over files of any number of objects of any sizes and any truncation point, parse_size over '
                  'all suffixes with the meaning of the regular expression trusted; contracts of EventIOFile and EventIOObject.read are '
                  'those of C04, C05. Random files on the real code cross-check it (bounded).')
CLAIMED['C23'] = ('proof', 'is_gzip, is_zstd, is_eventio and the constructor over all file contents of all lengths, the decompressors being '
                  'unknown functions of the content (trusted: gzip, zstandard, the gzip process). Random contents on the real code '
                  'cross-check it (bounded).')
