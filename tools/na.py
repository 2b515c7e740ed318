LEVEL_NOTE = {}
NA = {}
BIT = ('Static: the lowered IR of the current tree is interpreted over a bit-provenance domain (every integer is an exact '
       'linear form over input bits); nothing is executed and no solver is used. What the interpreter does not understand is '
       'listed as undecided and raises no alarm. Trusted: the plugin, the models of std:: containers and algorithms. ')
LEVEL_NOTE.update({
    'C20': BIT + 'Bounds: at most 12 bytes left beyond the position (its byte offset is symbolic); ns(n) for the listed n.',
    'C26': BIT + 'No bound: every bit offset and last byte, any amount left.',
    'C27': BIT + 'Bounds: buffers up to 17 bytes; ns(n) for the listed n.',
    'C17': BIT + 'Bounds: all inputs up to 8 bytes (10 thorough), longer ones (up to 70, 300 thorough) with 4 free bytes.',
    'C21': BIT + 'Bounds: all inputs up to 9 bytes (11 thorough), longer ones (up to 66, 300 thorough) with 5 free bytes.',
})



LEVEL_NOTE['C28'] = ('Static: each entry point is interpreted abstractly; the reader it builds, its content, every argument handed on and the '
                     'result are compared symbolically. A construct the interpreter does not follow is undecided and raises no alarm. '
                     'Trusted: the plugin, the models of std:: containers; UnescapeRbsp itself is decided under C17.')
LEVEL_NOTE['C29'] = ('Static: member types of every structure (ownership, shared cycles) and a forward flow analysis of each function body '
                     '(references, readers, iterators, moves, what must be given back). Findings under conditions that may exclude each '
                     'other are undecided and raise no alarm. Trusted: the plugin, the standard library\'s ownership rules.')

LEVEL_NOTE['C25'] = ('Static: the option loop is a transfer function computed once per documented option from an arbitrary state of the settings '
                     '(every field symbolic; numbers by their sign, range and rest), the rest of main() is interpreted abstractly from an '
                     'arbitrary state of the settings. The tool is never run. Bounds: streams of at most 3 NAL units in the length listing, '
                     'one file name per class. Trusted: the plugin, the models of getopt_long, strtol and stdio.')
LEVEL_NOTE['C30'] = ('Static: the checksum functions are interpreted over input bits kept as unknowns (never executed on data); lengths 0-13 (0-21 thorough) '
  'with up to four free bytes at every word position over several backgrounds, including ones whose carries carry again. Longer inputs repeat the same loop and are not enumerated.')
LEVEL_NOTE['C31'] = ('Static: ReadFile is interpreted over a model of the C and C++ library calls (never executed); file bytes are unknowns, sizes and failing calls are enumerated. '
  'Sizes beyond the enumerated ones repeat the same loop or call; files of 2 GiB and more are not modelled.')
