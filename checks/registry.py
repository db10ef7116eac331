"""The checks: sources, libraries, level and evidence text of each property."""
CHECKS = {}


def check(cid, sources, libs, level, technique, note, rule, assumptions=(), cflags=""):
    CHECKS[cid] = dict(sources=sources, libs=libs, level=level, technique=technique, note=note, rule=rule,
                       assumptions=list(assumptions), cflags=cflags)


check("C16", ["c16_string.cpp"], ["msat"], "exploration",
      "bounded exhaustive exploration of the real code against a reference model",
      "Every string over the significant characters up to length 4-9 (per helper), and all 1- and 2-byte strings for the encodings, is run on the "
      "real code under AddressSanitizer and checked STL; longer strings and other locales are assumed to behave alike.",
      "a case is one helper applied to one string (or pair of strings); all strings over the helper's alphabet up to the bound are "
      "enumerated once each; non-trivial: the string is not empty")

check("C15", ["c15_iniparser.cpp"], ["msat"], "model_checking",
      "explicit-state exploration of operation histories, each replayed on the real code against a map model",
      "All operation sequences up to depth 4 (keys that alias by case or collide by hash, empty key, sections), breadth-first reachable states, table "
      "growth around every resize, all ini files of up to 3 lines over 26 line shapes and of 4 lines over 11, save/reload. Longer histories are "
      "assumed to behave alike; the parser's behaviour on lines outside the grammar is not specified.",
      "a trace is one operation history or one file, replayed on the real dictionary and compared on every lookup; states are observable "
      "dictionary contents with their order; non-trivial: the resulting dictionary is not empty")

check("C01", ["c01_lines.cpp"], ["msat"], "model_checking",
      "explicit-state exploration of read histories, each replayed on the real code against a model of the image",
      "All read histories of 4-7 reads over the first and last line of every segment, all subsets of 2, 4 and 8 segments, all name assignments of 4 "
      "segments, every line of 3712- and 11136-line images of 1-7 columns, 176 HRV window geometries. The codec library is absent in this tree and is "
      "replaced by a stand-in that carries the samples; images are narrower than real ones; south-to-north line order only, as MSG disseminates.",
      "a trace is one history of reads (from a freshly scanned image up to depth 2, and as every window of a de Bruijn history beyond), replayed on the real DataAccess and compared "
      "with the generator's samples; states are segment subsets and pairs of last lines read, which determine what is cached; non-trivial: a line whose segment is present",
      ["the samples are carried by a stand-in of the PublicDecompWT codec, whose sources are not in the tree"])

check("C02", ["c02_names.cpp"], ["msat"], "exploration",
      "bounded exhaustive exploration of names and directory populations on the real code against a model of the selection",
      "Every identity over 2 resolutions, 5 products, 9 channels and 5 times in every name form against a directory with all near misses; all 1024 subsets "
      "of a pool of 10 files; 18 directory names in 8 spellings; all strings up to length 7 over the significant characters; all fillings of a long name. "
      "Wildcards inside product or time fields are not specified and not explored.",
      "a case is one name looked up in one directory population, or one string classified; non-trivial: the model selects at least one file, or the string "
      "has one of the two forms")

check("C03", ["c03_headers.cpp"], ["msat"], "exploration",
      "bounded exhaustive exploration of record sets, orders and field values on the real code against the generator's values",
      "All 512 subsets of the 9 record types both ways, all orders of up to 5 records (thorough: all 9! orders), all pairs of subsets read by one object, and "
      "boundary values of every field one at a time, are run on the real reader; simultaneous extreme values of several fields are assumed to behave alike.",
      "a case is one header file written by an independent generator, read back and compared field by field; non-trivial: it has at least one record")

check("C06", ["c06_time.cpp"], ["msat"], "exploration",
      "bounded exhaustive exploration of time codes and conversion histories on the real code against a counted calendar",
      "Every one of the 65536 day numbers at 14 times of day in four code forms, every second of six days (thorough: every millisecond of one), every microsecond "
      "and nanosecond value, every byte of the unsegmented code, seven time zones, all sequences of 5 loads and reads of three objects.",
      "a case is one time code decoded and compared with the calendar obtained by counting days; non-trivial: all of them")

check("C05", ["c05_records.cpp"], ["msat"], "exploration",
      "exhaustive enumeration of address patterns and single byte changes, run on the real decoder against the format's layout",
      "Every field of every prologue and epilogue record is compared under patterns that encode the address of each byte (so a byte taken from any other "
      "place differs in at least one), six backgrounds, and every single byte changed (quick: every 7th in records over 6 kB, every 997th in the two of "
      "over 300 kB). Fields without an accessor are compared as printed, to its precision.",
      "a case is one record (or file) filled with a pattern and decoded, with all its fields compared; non-trivial: not all bytes zero")

check("C04", ["c04_damaged.cpp"], ["msat", "gdal"], "fault_enumeration",
      "exhaustive fault enumeration: every cut and every header byte change of each file of an image, at every stage, on the real readers",
      "Every cut of both segment files and of the headers of all files (prologue and epilogue data: every 4 kB and all record boundaries), every header byte "
      "with 22 values (thorough: all 256), lengths near every power of two, subsets of header records, exchanged and missing files, pairs of cuts; before "
      "opening, and between opening and reading. Damage inside the compressed samples is up to the codec, which is not in the tree.",
      "a case is one fault injected at one stage, with the image then opened and read by the library and by GDAL; non-trivial: all of them",
      ["the samples are carried by a stand-in of the PublicDecompWT codec, whose sources are not in the tree"])

check("C07", ["c07_calibration.cpp"], ["msat", "gdal"], "exploration",
      "exhaustive enumeration of channels, counts and spacecraft, and of reading orders of open images, against the conversion formula",
      "All 12 channels, all counts of 8, 10 and 12 bits (thorough: 16), 12 slope/offset sets that differ per channel, 4 spacecraft, through the library "
      "and through GDAL, and all ordered pairs (thorough: triples) of reads over 24 open images. The constants are the channel constants of the "
      "library's documentation, used for every spacecraft; satellite-specific refinements are outside the property.",
      "a case is one count of one channel and coefficient set, or one reading order of open images; non-trivial: the physical value is not 0",
      ["the samples are carried by a stand-in of the PublicDecompWT codec, whose sources are not in the tree"])

check("C08", ["c08_raster.cpp"], ["msat", "gdal"], "model_checking",
      "explicit-state exploration of read histories through GDAL, each replayed on the real driver against a model of the image",
      "Every pixel of full width images with and without absent segments, all histories of 3 (thorough: 4) of ten ways of reading with three cache sizes, all "
      "histories of 3 reads over five data sets open together, 128 split windows, and metadata over all channels, four spacecraft and combinations "
      "of times, longitudes and grids (thorough: all). Scaled reads are nearest-neighbour.",
      "a trace is one history of reads, or one image opened, compared with the generated image; states are pairs of last reads; non-trivial: a line with data",
      ["the samples are carried by a stand-in of the PublicDecompWT codec, whose sources are not in the tree"])

check("C11", ["c11_facts.cpp"], ["msat"], "exploration",
      "exhaustive enumeration of identities and encodings on the real tables, translated forth and back and against the published codes",
      "All spacecraft codes to 2^17 (thorough: 2^24), every name with every one-byte change, all channels -300..300 of 1111 spacecraft, wavelengths to 20 um in steps "
      "of 0.7 nm (thorough: 0.1), pixel sizes 0.1..40 km in steps of 37 mm (thorough: 1 mm), factors 1e6..9e7 in steps of 997 (thorough: 13), diameters 1..60000. "
      "Pixel sizes within 3 parts per million of the nominal grids count as those grids.",
      "a case is one code, name, channel, wavelength, factor or size translated by every table that takes it; non-trivial: it is a known identity, or a size")

check("C17", ["c17_subprocess.cpp"], ["msat"], "model_checking",
      "stateless model checking: all operation histories and all placements of external events at the system calls, on the real code under a controlled scheduler",
      "All histories of 5 (thorough: 6) operations on one child and of 4 (thorough: 6) on two, every exit code and signal; for wait with a timeout every placement of "
      "three events (child ends, other child ends, signal) before, between, during and after its system calls with virtual sleeps; all combinations of stream "
      "redirections with every set of closed parent streams; argument and environment sequences up to 3 (thorough: 4); system call failures while starting.",
      "a trace is one operation history, event placement or program start, compared with the model; states are event placements and child states; "
      "non-trivial: a child is started")

check("C19", ["c19_omtp.cpp"], ["msat"], "fault_enumeration",
      "exhaustive enumeration of small images, ranges, cuts and object histories, written and read by the real code and compared with an encoder of the format",
      "Every header and line field with 24 boundary values (thorough: all 65536), all images of up to 2 records of up to 2 lines of 4 (thorough: 6) kinds and of up to "
      "3 (thorough: 4) records of 2 kinds, all line ranges of all images of up to 3 (thorough: 4) records of up to 3 lines, every cut of every small image, "
      "wrong counts and lengths, unwritable files, all histories of 4 (thorough: 5) of ten operations on two objects.",
      "a case is one image, range, cut or history; non-trivial: the image has lines, or is damaged")

check("C20", ["c20_hri.cpp"], ["msat"], "fault_enumeration",
      "exhaustive enumeration of field values, formats, lines, cuts, lost marks and reading histories, decoded by the real code and compared with an encoder of the format",
      "IBM numbers of all signs, exponents and first fraction bytes with 24 low parts (thorough: all 2^32 of 4 bytes), all digit strings, all 16 bit integers, every header "
      "field with 6 values over 7 backgrounds, all indicators, all days of 61 years in 6 time zones, all pixels of the 12 formats in both file kinds, cuts at every "
      "frame (quick: of the headers, the last record and a fixed part of the others), all histories of 3 (thorough: 4) reads of 6 files.",
      "a case is one value, line, cut or history; non-trivial: the value is a number of the format, or the line is in the image")

check("C18", ["c18_native.cpp"], ["msat"], "fault_enumeration",
      "exhaustive enumeration of sample phases and values, widths, channel selections, cuts, copies of line objects and reading histories, on the real code against an encoder of the format",
      "All line sizes up to 41 bytes (thorough: 121), all values of each sample of lines of 4..8, every byte of the line headers (thorough: all values), channel selections of "
      "up to 2 or at least 11 channels and a fixed part of the others (thorough: all 4096), all widths up to 13 (thorough: 21) in 5 paddings, cuts at every structure boundary and byte of the "
      "lines, all histories of 4 (thorough: 5) of 13 operations on line objects and of 3 (thorough: 4) readings of 5 files.",
      "a case is one line, file, cut or history; non-trivial: it carries samples, or is damaged")

check("C14", ["c14_views.cpp"], ["msat", "gdal"], "model_checking",
      "explicit-state exploration of histories of reads through calibrated views, each replayed on the real views over instrumented data sets",
      "All 65536 raw values with 14 calibrations and six block shapes; all tuples of two (thorough: three) of 14 band types; all combinations of band attributes, "
      "information and georeference; all histories of three reads over a grid of windows (thorough: all windows) of a three band image with six block shapes, with "
      "unreadable blocks, flushes and reads of the source in between; blocks of up to 4 (thorough: 13) million pixels; views over GeoTIFF and xRIT files.",
      "a trace is one history of three reads compared with the values computed from the source; states are the first windows; non-trivial: a data set with bands",
      ["statistics kept in metadata by other drivers are passed on as they are"])

check("C13", ["c13_crop.cpp"], ["tool", "msat", "gdal"], "model_checking",
      "explicit-state exploration of histories of conversions by one translator and one msat command, each replayed on the real code and compared with every image converted alone",
      "All windows around a 5x4 image with four georeferences, far windows, 23x23 output sizes of windows of a 6x4 image, all lists of up to three (thorough: four) bands, "
      "projected windows at five fractions of pixels; 16 settings of a translator with all histories of three (thorough: four) of six images; recoding of all windows to several "
      "sizes; 27 msat commands with all histories of two and part of three (thorough: all) of four files; pictures around the size limit in pairs; boxes in degrees over the disk.",
      "a trace is one history of conversions, states are images converted alone; non-trivial: the request is valid",
      ["scaled pixels may come from any source pixel their area touches", "statistics that --viewmore leaves beside a file are not judged"])

check("C21", ["c21_levels.cpp"], ["tool", "msat", "gdal"], "exploration",
      "complete enumeration of small images over alphabets of values, exported by the real code and compared with the linear function of their range",
      "All images of up to four (thorough: five) pixels over alphabets of 6 to 9 values of seven types (with the ends of the types, infinities and NaN), each with no and with up to 12 "
      "no data values; 324 pairs of limits for each type; all byte values between a grid of ends and the values of 16 bit ranges; 3000 (thorough: 20000) ranges of real numbers; "
      "all sizes up to 7x7 with four block shapes; unreadable lines; windows of a 6x5 image by the msat command as PNG.",
      "a case is one picture; non-trivial: it is made",
      ["levels are truncated or rounded alike", "pixels of JPEG pictures are not judged"], cflags="$MAGICK")

check("C10", ["c10_georef.cpp"], ["msat", "gdal"], "model_checking",
      "explicit-state exploration of the histories of georeferencer objects, each replayed on the real code and compared with a fresh object, and enumeration of pixels compared with the projection formula",
      "All pixels of disks of 58, 116 and 232 (thorough: 464) pixels in three orientations from seven longitudes; all pixels of 384 crops and scales of a 3712 pixel disk; a grid of 2.5 (thorough: 1.25) "
      "degrees of latitudes and longitudes; 1296 (thorough: 6561) geotransforms with three origins; a grid of pixels of xRIT images; all histories of three (thorough: four) of nine data sets.",
      "a trace is one history of initialisations followed by conversions, states are fresh objects; evaluations are pixels and points; non-trivial: the Earth is visible there",
      ["points within a part in 1e9 of the limb are not judged", "PROJ converts between datums as it does outside of the library"])

check("C09", ["c09_derived.cpp"], ["msat", "gdal"], "model_checking",
      "exhaustive exploration of dates, disks, values, source orders and read histories on the real code against the definitions of the products",
      "Every day of 300 years; the sun at every quarter of an hour of every day on a grid of the Earth (also against an independent ephemeris); all counts of 10 bits per solar channel and "
      "5832 triples of temperatures on disks of 6 satellites at 6 times; sources in every order and division in files, 24 inconsistencies in every order, images up to 6x6 "
      "in every block shape, all histories of 3 reads, and xRIT files of all channels under every suffix and option. Other times and positions are assumed to behave alike. "
      "Pixels within 1e-8 of the limb are not judged. Formulas are the ones the code documents; only the solar angle has an independent oracle.",
      "a trace is one product made from its sources and compared at every pixel; transitions are reads of windows; states are pairs of windows read before; "
      "non-trivial: the product has a value there",
      ["the samples of xRIT files are carried by a stand-in of the PublicDecompWT codec, whose sources are not in the tree"])

check("C12", ["c12_grib.cpp"], ["msat", "gdal"], "model_checking",
      "exhaustive exploration of images, templates, write/read histories and write failures on the real driver against the written image",
      "20 spacecraft x channels -2..20 and beyond; every month end and days of every month of decades, and times of day; longitudes; windows at the sides and the middle of both grids; sizes to 7x7 in 4 block shapes and large ones; "
      "all images of up to 2 pixels (of 3, and in thorough of 4, in a part of the combinations) over 5 values x 7 scalings x 6 nodata settings x 5 types x 4 channels; 13x13 ranges; all windows of a 5x4 image; all chains of 4 templates; "
      "all histories of 3 (4) operations on two files; 24 kinds of sources that cannot be represented; a disk full after every number of bytes; all cuts; 29 values of 32 keys and 15 (256) values of each byte. "
      "Values are compared within the packing (2.5e-7 of the range, 1.2e-6 of the lowest). GRIB1 has times to the minute; longitudes are kept to 1e-3 (GRIB1) or 1e-6 degrees. "
      "Without missing pixels, values equal to the conventional missing value of the channel are not told from it.",
      "a trace is one file written and/or read and compared at every pixel; states are the pairs of files and the open data set of histories; transitions are operations; "
      "non-trivial: an image was written and compared, or a fault was injected",
      ["changed bytes on which ecCodes itself aborts or overruns its buffers are not judged", "windows lie within the grid of the satellite"])

check("C22", ["c22_files.cpp"], ["msat"], "fault_enumeration",
      "exhaustive enumeration of system call failures, partial calls, crash points, concurrent changes and operation histories, on the real code under a controlled system call layer",
      "Every failure of every system call (pairs for small files) of the file helpers, a process that dies before each call, files and directories exchanged by another process before each call, "
      "all sequences of 4 (thorough: 5) partial reads or writes, all histories of 4-5 (thorough: 5-6) operations on descriptors, memory maps and file objects and of 3 locks, all trees of up to 3 "
      "(thorough: 4) entries of 8 kinds with and without types in the directory, all pairs of 14 kinds of paths. Files are local ones; power loss (as opposed to the end of the process) is not explored.",
      "a case is one operation with one fault or event, or one history, compared with a model of the files; non-trivial: there is something to do",
      ["the directory of a relative path is not changed while the object lives"])

check("C23", ["c23_openmtp.cpp"], ["msat"], "model_checking",
      "exhaustive enumeration of OpenMTP files, cuts and reading histories on the real code, against a model of the format",
      "every header value with 14 values each and byte patterns different at every offset (thorough: 256 patterns), all codes, 16 channels x 11 kinds of processing; all decimal numbers of 2, 3 and 5 digits "
      "or blanks; all bytes of binary numbers; 5 satellites x 9 channels x 60 calibrations x 256 counts; all sizes over 7 values and impossible ones over 13; files cut within 40 bytes of each section "
      "and at each 997th byte (thorough: 7th); all days of 5 years, all minutes of a day; 7 image formats x 9 channels x 4 first lines; all sequences of 3 (thorough: 4) of 9 kinds of files. "
      "Calibration is compared within 1e-4; calibration fields have digits or blanks. The option openmtp is off by default: the check compiles the files itself.",
      "a trace is one history of files read by an object and compared with the model; states are files; transitions are reads; non-trivial: the file was read and compared, or had to be refused",
      ["years have four digits and times are within the day"])

check("C24", ["c24_db1.cpp"], ["msat"], "model_checking",
      "exhaustive enumeration of DB1 directories and of histories of operations on the real code, against a model",
      "35 keys, absent or with 6-10 values each, among few or all others; all combinations of missing files; 12 channels x 13 places x 3 variables; 16 numbers of bits x 3 tables; samples of 0-70 bytes "
      "(thorough: 600) and four large sizes; all histories of 4 (thorough: 5) of 11 operations on two directories. Radiance of HRV is not judged, nor channel names of more than 6 characters that are in the "
      "directory. The option thornsds_db1 is off by default: the check compiles the file itself.",
      "a trace is one history of operations on an object compared with the model at its end; states are pairs of directory and channel, and directories; transitions are operations; "
      "non-trivial: a channel was selected and compared, or had to be refused",
      ["samples are in the byte order of the machine"])

check("C25", ["c25_tools.cpp"], ["tools", "msat"], "exploration",
      "exhaustive enumeration of small sets of input files, damages and outputs that cannot be written, each run by the tool in a process of its own and compared with the input",
      "XRIT2Image: all sets of up to 4 (thorough: 5) segments of 9 sizes and 3 compressions, options in all combinations, all cuts of each segment at steps of 1-3 bytes, two (thorough: all) bits of each "
      "byte of a segment, 20 inconsistent segments in each place; native2Image: 6 sets of channels x 12, all pairs of 6 sizes, 4 scales; OpenMTP-IDS: all arrangements of 4 (thorough: 5) lines of 4 "
      "channels, all identities, 12 sizes of image around the sector, all cuts; dumps of 108 xRIT images; db1_to_image: all orders, scales and overlays, sizes around those of the data; every "
      "output that cannot be written, also for a full disk. Stretched images are compared by the order and the range of values. Images are converted to PGM. XRIT2NetCDF, HRI2NetCDF and the other netCDF "
      "tools are not built here (libnetcdf_c++ is missing).",
      "a case is one run of a tool; non-trivial: its output was compared with the input, or it had to end with an error",
      ["segments are stored from south-east, as SEVIRI ones are", "ImageMagick reads and writes PGM files as it should"], "$MAGICK")

check("C26", ["c26_messages.cpp"], ["msat"], "model_checking",
      "exhaustive enumeration of small files, names, sizes, cuts and histories of reads on the real code, against a model of each kind of file",
      "GTS messages, texts, key messages, prologues and binary files of all sizes up to 300 (quick) or 1200 (thorough) bytes and some large ones; every character at every place of the name of a copy; "
      "every cut of six sizes; every combination of directories and files that cannot be written; all histories of reads by one object; key messages of 0-600 bytes and of up to 70000 keys",
      "a trace is one history of files read by one object, compared after each with the model; states are pairs of the file read before and the one read; transitions are reads; "
      "non-trivial: a file was read and compared, or had to be refused")

check("C27", ["c27_messages_out.cpp"], ["msat"], "model_checking",
      "exhaustive enumeration of histories of tasks, messages and handlers, and of colours and outputs, on the real code against models of the handler and of a terminal",
      "all histories of 6 (thorough: 7) of 8 operations on a Progress object; all trees of tasks written with 7 (9) symbols, some ended by exceptions; 7 texts x 81 pairs of numbers x 4 depths; all pairs "
      "of 18 colours, alone and within others; 6 kinds of output. Whether bold characters are bright is up to the terminal.",
      "a trace is one history of operations compared with the model; states are pairs of colours, transitions operations; non-trivial: there was a handler, or something was written",
      ["codes 30-37, 40-47, 90-97, 100-107, 1 and 0 have their usual meaning in terminals"])

check("C28", ["c28_view.cpp"], ["tool", "msat", "gdal"], "exploration",
      "exhaustive enumeration of small images, windows, lists of bands and histories of files, each shown by the msat command in a process of its own and compared with the image",
      "all images of up to 3 (thorough: 4) pixels over 5 values with 3 no data values; 11 types x 32 combinations of name, unit, calibration and metadata; all windows of a 4x3 image; all lists of up to 2 of 10 "
      "bands by number and name; all histories of up to 3 (thorough: 4) files of six kinds; metadata of four other files; full disks. Values are compared to the six digits that are shown; "
      "the ranges GDAL keeps beside an image after --viewmore are not judged.",
      "a trace is one list of files shown, compared image by image; non-trivial: an image was shown and compared, or an error was due",
      ["GeoTIFF files written by GDAL hold what they were given"])
