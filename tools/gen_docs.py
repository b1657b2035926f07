#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The repository's tests only rotate one tiny buffer and compile documentation examples; none of them "
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=TESTS + why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=["rawloader::decode and the returned RawImage / RGBImage" if id not in ("C20",) else "the rawloader command line tool"], hook_needed=None), _note=note))

prop("C01", "Uncompressed and bit-packed raw files decode to exactly the stored samples",
 "For every well-formed file of a supported camera that stores samples unpacked (8 bit, 12/14/16 bit in two bytes, either byte order) or bit-packed (10 or 12 bit, LSB or MSB order, with or without control bytes, interlaced, rotated Fuji layouts), decode returns an image of the stored width and height whose sample at every row and column is the value that was stored there. Nothing is shifted, swapped, dropped, duplicated or clamped, for every image size the format allows and every sample value.",
 ["inputs"], "all image contents, sizes and cameras of every uncompressed or packed encoding (ARW, SRF, DNG, ERF, KDC, MEF, MRW, NEF, NRW, ORF, PEF, RAF, RW2, SRW, ARI, MOS, CRW Pro70, headerless files); packed 12 bit rows of even width, 10 bit DNG rows of a width divisible by 4",
 "decodes a file at all.",
 ["src/decoders/packed.rs", "src/decoders/basics.rs", "src/decoders/arw.rs", "src/decoders/dng.rs", "src/decoders/erf.rs", "src/decoders/kdc.rs", "src/decoders/mef.rs", "src/decoders/mrw.rs", "src/decoders/nef.rs", "src/decoders/nrw.rs", "src/decoders/orf.rs", "src/decoders/pef.rs", "src/decoders/raf.rs", "src/decoders/rw2.rs", "src/decoders/srw.rs", "src/decoders/ari.rs", "src/decoders/mos.rs", "src/decoders/nkd.rs", "src/decoders/crw.rs"],
 [("row decoders for packed and unpacked samples", "src/decoders/packed.rs, basics.rs"), ("selection of the layout per camera and file", "src/decoders/*.rs image()")],
 "round trip through independent encoders")
prop("C02", "Lossless JPEG raw data decodes to exactly the encoded samples",
 "For every well-formed file whose raw data is lossless JPEG (CR2 including sliced, double-line and sub-sampled sRAW/mRAW, DNG strips and tiles, 3FR, MOS), decode returns exactly the samples that were encoded, for every Huffman table, predictor in use, number of components, slicing, tiling and image size the format allows. Sub-sampled colour is returned as the RGB conversion of each stored luma with the chroma shared by its group.",
 ["inputs"], "all contents, sizes, Huffman tables (codes up to 16 bits, differences up to 16 bits), component counts, slices and tile sizes; sample precision 12-16 bits, no point transform",
 "touches the JPEG decoder.",
 ["src/decoders/ljpeg/mod.rs", "src/decoders/ljpeg/huffman.rs", "src/decoders/ljpeg/decompressors.rs", "src/decoders/pumps.rs", "src/decoders/cr2.rs", "src/decoders/dng.rs", "src/decoders/tfr.rs", "src/decoders/mos.rs"],
 [("Huffman tables and difference decoding", "src/decoders/ljpeg/huffman.rs"), ("predictors and component interleaving", "src/decoders/ljpeg/decompressors.rs"), ("reassembly of slices and tiles", "src/decoders/cr2.rs, dng.rs")],
 "round trip through an independent lossless JPEG encoder")
prop("C03", "Vendor lossless compression decodes to exactly the encoded samples",
 "For every well-formed file in a vendor's own lossless compression (Canon CRW, Nikon lossless NEF, Olympus ORF, Panasonic RW2, Pentax PEF, Samsung SRW versions 1-3, Sony ARW1 and A100, Phase One/Leaf IIQ), decode returns exactly the samples that were encoded, for every content, size and coding parameter the format allows.",
 ["inputs"], "all contents, sizes, code tables and coding parameters of each scheme (CRW images of a multiple of 64 samples, SRW1 of even width of 16 or more and even height, interleaved layouts within their documented limits)",
 "reaches a decompressor.",
 ["src/decoders/crw.rs", "src/decoders/nef.rs", "src/decoders/orf.rs", "src/decoders/rw2.rs", "src/decoders/pef.rs", "src/decoders/srw.rs", "src/decoders/arw.rs", "src/decoders/iiq.rs", "src/decoders/pumps.rs", "src/decoders/ljpeg/huffman.rs"],
 [("bit pumps", "src/decoders/pumps.rs"), ("per-vendor predictors and code tables", "src/decoders/{crw,nef,orf,rw2,pef,srw,arw,iiq}.rs")],
 "round trip through independent encoders of each scheme")
prop("C04", "Companded raw data decodes to within one step of the curve in the file",
 "For every well-formed file whose samples are stored as symbols of a tone curve (Nikon lossy and split NEF, sNEF, Kodak DCS and DCR, Sony ARW2, 8 bit DNG with a linearization table, Canon D2000), every decoded sample lies between the neighbouring entries of the curve around the stored symbol's entry, at the row and column it was stored for. Where the format defines the value exactly the decoded sample is exactly that value.",
 ["inputs"], "all contents, sizes and monotonic curves of each companded encoding, and every dither state",
 "reaches a curve.",
 ["src/decoders/basics.rs", "src/decoders/nef.rs", "src/decoders/dcs.rs", "src/decoders/dcr.rs", "src/decoders/arw.rs", "src/decoders/dng.rs", "src/decoders/cr2.rs"],
 [("dithered curve lookup", "src/decoders/basics.rs LookupTable"), ("symbol decoders", "src/decoders/{nef,dcs,dcr,arw}.rs")],
 "encoders that know the coded symbol; oracle is the curve step around it")
prop("C05", "Every supported camera is identified and gets its own database record",
 "A well-formed file of any camera, alias or mode in the camera database is decoded as that camera: the reported maker and model are those stored in the file, the clean names are those of the database, and levels, crops, colour matrix and filter pattern are that camera's and no other's.",
 ["inputs", "configurations"], "all 718 database entries (cameras, aliases, modes) in every encoding each of them can appear in",
 "loads the camera database and decodes with it.",
 ["src/decoders/mod.rs", "src/decoders/camera.rs", "data/cameras", "data/cameras/join.rs"],
 [("choice of decoder by container and maker", "src/decoders/mod.rs get_decoder"), ("lookup by maker, model and mode", "src/decoders/mod.rs check_supported*"), ("record parsing", "src/decoders/camera.rs")],
 "every pair of camera and encoding is written to a file on every run and the result compared with a committed snapshot of the database")
prop("C06", "White balance is reported as stored in the file",
 "For every well-formed file, the reported white balance coefficients are the ones the format stores for the shot, in the order red, green, blue, emerald, after the vendor's scaling or decryption; a coefficient the file does not carry is not a number. They never come from another field, another channel or another shot setting.",
 ["inputs"], "all stored coefficient values (1 to 5000 and their scaled forms) in every format and camera that carries them, including encrypted Nikon, Sony and Samsung blocks",
 "reads metadata.",
 ["src/decoders/*.rs get_wb", "src/decoders/tiff.rs", "src/decoders/ciff.rs"],
 [("white balance readers of each decoder", "src/decoders/*.rs get_wb"), ("entry access", "src/decoders/tiff.rs")],
 "written values compared with reported ones")
prop("C07", "Levels, crops, colour matrix and filter pattern are those of file and camera",
 "For every well-formed file, black levels, white levels, crops, colour matrix and colour filter pattern are those the file states where the format states them (DNG, and vendor tags for levels), and otherwise those of the camera's database record. Where the record names masked sensor areas, the black level of each colour is the whole-number average of all samples of that colour inside those areas of this image.",
 ["inputs"], "all contents, sizes and stored levels of every format and camera",
 "computes levels.",
 ["src/decoders/image.rs", "src/decoders/camera.rs", "src/decoders/dng.rs", "src/decoders/*.rs get_blacklevels/get_whitelevels"],
 [("RawImage construction and masked-area averages", "src/decoders/image.rs"), ("overrides from the file", "src/decoders/*.rs")],
 "reference averages over the decoded samples; stored values compared")
prop("C08", "Orientation is reported as stored in the file",
 "For every well-formed file the reported orientation is the one of the eight EXIF orientations that the file states for the raw image, and unknown when the file states none or an undefined value.",
 ["inputs"], "orientation values 0-19 or absent in every format that carries the entry; formats that carry none report unknown or normal as documented by the camera",
 "reads an orientation from a file.",
 ["src/decoders/mod.rs", "src/decoders/image.rs", "src/decoders/mrw.rs", "src/decoders/raf.rs", "src/decoders/x3f.rs"],
 [("Orientation::from_u16 / from_tiff", "src/decoders/image.rs")],
 "written values compared with reported ones")
prop("C09", "Decoding does not depend on how the container is laid out",
 "Two well-formed files with the same content decode to the same image, whatever their byte order, the placement, order and padding of directories, values and data, the order and integer width of directory entries, unknown entries and directories, and trailing bytes.",
 ["inputs", "configurations"], "all pairs of a plain layout and 1-3 generated layouts of one generated content, in every encoding",
 "parses a container.",
 ["src/decoders/tiff.rs", "src/decoders/ciff.rs", "src/decoders/mrw.rs", "src/decoders/raf.rs", "src/decoders/basics.rs"],
 [("offset-based entry access in the file's byte order", "src/decoders/tiff.rs, ciff.rs")],
 "metamorphic: same content in several layouts")
prop("C10", "Any bytes at all give a consistent image or an error result",
 "decode returns for every file content: either an image whose number of samples is width times height times samples per pixel, or an error with a message. It never unwinds into the caller, aborts or crashes the process, exhausts memory, overflows the stack or fails to return.",
 ["inputs"], "all byte strings: damaged files of every format (flipped, extreme, missing, repeated or re-pointed parts, cyclic directories, truncation, splices) and arbitrary data behind every container signature; in builds with and without overflow checks",
 "feeds a malformed file.",
 ["src/decoders/mod.rs", "src/decoders/tiff.rs", "src/decoders/ciff.rs", "src/decoders/basics.rs", "src/decoders/ljpeg/mod.rs", "src/decoders/*.rs"],
 [("panics are caught and turned into errors", "src/decoders/mod.rs decode_safe"), ("bounded directory recursion", "src/decoders/tiff.rs, ciff.rs"), ("bounded allocation", "src/decoders/basics.rs alloc_image")],
 "structure-aware mutation fuzzing in child processes with memory and CPU limits")
prop("C11", "Results depend only on the file content",
 "Decoding the same content, or processing the same image to the same size, gives bit-identical results every time: whatever the file is called and wherever it lies, whatever was decoded or failed before, whatever other threads are decoding or processing at the same time, and whatever the number of worker threads and the process. The input file is never modified and nothing is left beside it.",
 ["schedules", "histories", "configurations"], "all batches of well-formed and damaged files and images, orders, thread counts, worker pool sizes, file names",
 "decodes anything, let alone concurrently.",
 ["src/lib.rs", "src/decoders/mod.rs", "src/decoders/basics.rs", "src/imageops/mod.rs"],
 [("one shared immutable loader", "src/lib.rs LOADER"), ("row-parallel loops that write disjoint rows", "src/decoders/basics.rs decode_threaded, src/imageops/mod.rs")],
 "digests of all results compared across orders, threads, processes and names")
prop("C12", "Processed images have the right size for any limits",
 "Processing with a maximum width and height returns an image of the visible (cropped, oriented) size if that fits or if either limit is zero. Otherwise the result lies within both limits, reaches one of them exactly, keeps the aspect ratio to within a pixel and is at least one pixel in each direction; to_rgb, to_linear_rgb and to_srgb agree on the size and return three values per pixel.",
 ["inputs"], "all image sizes, crops, orientations, kinds (mosaic, monochrome, RGB) and limits",
 "processes an image.",
 ["src/imageops/demosaic.rs", "src/imageops/mod.rs", "src/imageops/transform.rs", "src/decoders/image.rs"],
 [("target size", "src/imageops/demosaic.rs demosaic_and_scale")],
 "size rules checked on generated images and limits")
prop("C13", "Orientation moves pixels exactly as EXIF defines and changes nothing else",
 "The result of processing an image with any of the eight orientations is, bit for bit, the result of processing the same image upright (with the limits exchanged where the orientation exchanges the axes), with every pixel moved to where the EXIF definition puts it.",
 ["inputs"], "all images, sizes, orientations, limits and the three outputs",
 "checks orientation together with the rest of the processing; the transform is tested on a single 2x3-like buffer only.",
 ["src/imageops/transform.rs", "src/imageops/mod.rs", "src/decoders/image.rs"],
 [("rotate_buffer", "src/imageops/transform.rs"), ("Orientation::to_flips", "src/decoders/image.rs")],
 "metamorphic, bit-exact")
prop("C14", "Full-size processing matches the reference pipeline at every pixel",
 "At full size every pixel of to_linear_rgb equals, to within rounding, the reference computation from the raw samples: missing colours are the average of the samples of that colour in the 3x3 neighbourhood, each channel is scaled from its black to its white level, multiplied by its white balance relative to green (neutral for the camera where the file gives no usable one, none for monochrome) and clipped at 1, converted through the camera matrix, given the base curve on luminance, and converted to linear Rec.709. This holds for every filter pattern, border pixel, crop, level and matrix; pixels whose luminance would be negative are unspecified.",
 ["inputs"], "all generated raw images: sizes from 1x1, all patterns, RGB and monochrome images, levels, white balances, matrices",
 "processes an image.",
 ["src/imageops/gofloat.rs", "src/imageops/demosaic.rs", "src/imageops/level.rs", "src/imageops/colorspaces.rs", "src/imageops/curves.rs", "src/decoders/image.rs"],
 [("demosaic full", "src/imageops/demosaic.rs full"), ("levels and white balance", "src/imageops/level.rs"), ("colour conversion", "src/imageops/colorspaces.rs"), ("base curve", "src/imageops/curves.rs")],
 "differential against an independent double precision implementation, tolerance 2e-3 of the value")
prop("C15", "Scaled-down processing averages exactly the area each pixel covers",
 "When the limits ask for a smaller image, each output pixel is the average of the raw samples (large reductions of mosaic data, each colour over its own samples) or demosaiced pixels (otherwise) that its area covers, partial coverage weighted by area, followed by the same levels, balance, colour and curve as at full size. No sample inside is skipped and none outside contributes.",
 ["inputs"], "all generated raw images and limits that ask for scaling, integral and fractional ratios, up to 2600x1900 pixels",
 "scales an image.",
 ["src/imageops/demosaic.rs"],
 [("calc_skips, scaled, scale_down", "src/imageops/demosaic.rs")],
 "differential against double precision area averages, tolerance derived from 32 bit positions")
prop("C16", "Filter patterns repeat and shift consistently",
 "A colour filter pattern of any supported size reports, at every row and column, the colour of the pattern string repeated without end; shifting it by x and y, any number of times, gives the pattern as seen from that position. The empty pattern is the only invalid one.",
 ["inputs", "histories"], "patterns of 0, 4, 16, 36 and 144 colours, chains of up to three shifts, positions and shifts up to 2^32",
 "goes beyond three documentation examples.",
 ["src/decoders/cfa.rs"],
 [("CFA::new, shift, color_at", "src/decoders/cfa.rs")],
 "model: the repeated string")
prop("C17", "Camera colour matrices are inverted and normalised correctly",
 "For every camera matrix, converting the camera's response to a colour (each channel balanced so that daylight white is equal in all) back gives that colour, for three- and four-colour cameras, independently of the scale of each matrix row. The neutral white balance derived from the matrix equalises the response to daylight white, relative to green.",
 ["inputs"], "matrices of the database and perturbed ones with three or four rows, rows scaled by 0.01 to 20, random colours",
 "does arithmetic on a matrix.",
 ["src/decoders/image.rs"],
 [("cam_to_xyz, neutralwb", "src/decoders/image.rs")],
 "round trip and double precision pseudo-inverse")
prop("C18", "Only the visible part of the sensor influences the result",
 "Processing an image with crops gives, bit for bit, what processing the visible part alone gives, with the filter pattern as seen from its corner. Samples outside the crops never influence the result.",
 ["inputs"], "all generated raw images with crops on any side, all patterns, limits and kinds",
 "processes an image.",
 ["src/imageops/gofloat.rs", "src/decoders/image.rs"],
 [("crop on conversion", "src/imageops/gofloat.rs"), ("cropped_cfa", "src/decoders/image.rs")],
 "metamorphic, bit-exact")
prop("C19", "The three outputs agree and stay in range",
 "Every value of to_rgb is between 0 and 1 and is the gamma encoding of the value to_linear_rgb gives at that place, and to_srgb is its eight bit form, the whole part of 255 times the value. Multiplying all white balance coefficients by one factor changes nothing.",
 ["inputs"], "all generated raw images and limits, including samples above white and below black, factors 2^-6 to 2^5 exactly and others to rounding",
 "processes an image.",
 ["src/imageops/curves.rs", "src/imageops/mod.rs", "src/decoders/image.rs", "src/imageops/level.rs"],
 [("gamma table", "src/imageops/curves.rs"), ("to_srgb", "src/decoders/image.rs")],
 "relations between outputs")
prop("C20", "The command line tool writes the processed image or fails visibly",
 "Given a raw file, the tool writes a binary PPM with the size and eight bit values of the full-size processed image to the given output or else to the input name with .ppm appended, replacing what was there, reports camera, size, levels and statistics of all samples, and exits with 0. Without arguments it prints its usage and exits with 1; if the file cannot be decoded or the output cannot be created it prints an error, exits with 2 and writes nothing; if the output cannot be written completely it prints an error and exits with 2.",
 ["inputs", "fault_sequences"], "files of every kind (larger than their crops), input and output names, relative and absolute, existing outputs; missing and refused inputs, outputs that cannot be created or written",
 "runs the tool.",
 ["src/bin/rawloader.rs"],
 [("main", "src/bin/rawloader.rs")],
 "the tool is run on generated files and its output compared with the library's")
prop("C21", "What is not supported is refused with a message, never decoded as something else",
 "A file of a camera model or maker that is not in the database, of a camera in a mode (bit depth, aspect ratio) that the database does not have for it, with a compression scheme or bit depth that is not supported, of unknown container or size, an unreadable path, or a source that fails while being read gives an error with a message. It never yields an image.",
 ["inputs", "fault_sequences"], "well-formed files with the model, maker or compression changed by one character or value, data without signature of sizes next to known ones, missing files, directories, readers that fail at any byte",
 "opens a file.",
 ["src/decoders/mod.rs", "src/decoders/*.rs"],
 [("check_supported*", "src/decoders/mod.rs"), ("compression dispatch", "src/decoders/*.rs image()")],
 "changed names and values that are not in the snapshot of the database")
prop("C22", "Neutral subjects are rendered neutral, black as black and white as white",
 "A subject whose samples are equal after levels and white balance is rendered grey at every brightness; samples at the black level are rendered black, samples at the white level white, and a brighter subject is never rendered darker. This holds for every camera matrix, pattern, level, white balance and size limit.",
 ["inputs"], "uniform subjects of generated brightness through generated cameras (multipliers of at least 1 for white)",
 "renders anything.",
 ["src/imageops/level.rs", "src/imageops/colorspaces.rs", "src/imageops/curves.rs", "src/decoders/image.rs"],
 [("matrix normalisation", "src/decoders/image.rs"), ("Lab conversion with the same white", "src/imageops/colorspaces.rs")],
 "invariant over generated cameras, independent of the reference pipeline")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash run.sh build", checks=[], not_applicable=[],
  notes="All checks are built from /verif/harness (and /verif/cli for C20) against /repo's working tree through the public API; no hooks in /repo are needed.")
for p in P:
    m["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
      evidence_file="evidence/%s.json" % p["id"], technique="property-based testing (proptest generators): " + p["_note"], level="exploration",
      level_note="Holds on every generated case of the run (counts in the evidence); no claim of absence beyond them. Trusts the reference encoders or models in /verif/harness."))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# the list of planted bugs in DESIGN.md
import re
rows = {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.setdefault(m["property"], []).append((d, m["what_it_breaks"], m["needs"]))
t = "Kept in `seeded/`; each is caught by the quick check of its property (exit 1, VIOLATION line):\n\n"
for k in sorted(rows):
    t += f"- {k}: " + "; ".join(f"{d} ({n})" for d, b, n in rows[k]) + "\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + t + "<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
