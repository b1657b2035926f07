# (needs, what it breaks) of changes of the later waves that are kept in seeded/
TEXT = {
'kdc-offset': ('an EasyShare file whose stated offset is exactly 0x15000','the image is read from 8 kB too early'),
'dht-multi': ('a lossless JPEG with several Huffman tables in one segment, the last with few codes','the last table is never read, the file is refused'),
'pef-depth': ('a Pentax file whose Huffman table has fewer than twelve lengths','the table is misread, valid files are refused or decoded wrongly'),
'crw-skip': ('a CRW block that uses the fill code','the rest of the block is taken as zero differences'),
'orf-shift': ('an Olympus compressed file whose running average of differences is negative','rounds towards zero instead of down, later samples are wrong'),
'rw2-sh4': ('a Panasonic packet at the coarsest step whose base stays above zero','high bits of the predictor are kept, samples are wrong'),
'srw3-mode': ('a Samsung third generation group with no difference bits','the lengths of later groups are derived from the wrong history'),
'arw1-height': ('a first generation Sony file whose stated height is divisible by 16','the last eight rows are missing'),
'nef-csize': ('a lossy Nikon file whose curve has exactly 0x4001 points','the curve is ignored'),
'arw2-imax': ('a second generation Sony block with a sample coded above the stated maximum','the sample is clipped to the maximum'),
'str-trim': ('a camera name with blanks in front','the camera is not found'),
'mos-model': ('a Leaf file whose model is followed directly by a bracketed serial number','the serial number becomes part of the model'),
'crw-info2': ('a CRW file whose ColorInfo2 starts with exactly 512','white balance read from the places of the other layout'),
'mos-neut': ('a Leaf file whose neutral section lies at the very end of the metadata','the white balance is not found'),
'sony-len': ('a Sony file whose enciphered directory is not a whole number of words long','its last bytes are not deciphered'),
'rational': ('a rational whose denominator exceeds 2^31','white balance becomes negative'),
'dng-white': ('a DNG whose preview directory states another white level','the white level of the preview is reported'),
'orient-sub': ('a file whose thumbnail directory states another orientation','the orientation of the thumbnail is reported'),
'subifd-one': ('a file with more than four sub-directories, the raw one behind the fourth','the raw directory is not found'),
'big-endian-mm': ('a big-endian Pentax file whose maker note starts with AOC','the maker note is misread'),
'ciff-depth': ('a CIFF file with a heap that contains itself','the recursion overflows the stack and the process dies'),
'dng-cpp': ('a DNG stating two or more than three samples per pixel','the number of samples does not match the dimensions'),
'orient-cache': ('a file without orientation decoded after one with','it inherits the orientation of the other file'),
'swap-limits-7': ('an image with one of the two mirrored diagonal orientations and limits','the result exceeds the limits'),
'flip-order': ('a square image rotated by 270 degrees','it is rotated the other way'),
'wb-finite': ('a white balance with a red coefficient of zero','taken as usable instead of the neutral one'),
'clip-early': ('a blue coefficient below green and samples above the white level','clipped before balancing, highlights are tinted'),
'calc-last': ('a reduction whose ratio has a fractional part under one half','the partially covered last samples are skipped'),
'cfa-shift-48': ('a six or twelve wide pattern shifted by more than 200','the pattern jumps at 256'),
'num-zero': ('a matrix row whose response to white is negative','the channel is ignored'),
'cfa-crop-x': ('an X-Trans image with a crop of more than one','the colours are taken from the wrong phase of the pattern'),
'gamma-neg': ('a colour outside the output gamut','the negative channel is rendered bright instead of zero'),
'cli-utf': ('an input file whose name ends in .ppm','the input file is overwritten'),
'case-model': ('a camera called like a known one with II appended','decoded as the older camera'),
'mode-fallback': ('a camera known only in another bit depth','decoded with the levels of the base entry'),
'mono-wb': ('a monochrome image that states a white balance','rendered with a colour cast'),
'spline-mono': ('any mid tone','the base curve has other tangents and is off by up to one percent'),
}
