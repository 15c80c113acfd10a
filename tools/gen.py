#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "python/aces/clf/"
L = "python/aces/lutFormats/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
    })


TESTS = "The stable tests build one example list, write and read it, and process three pixels; "

prop("C01", "Pixels are processed independently of each other and of the stride",
     "Processing an array of pixels gives for every pixel exactly what processing that pixel alone gives, for any number of pixels, any number of "
     "channels per pixel of at least three, and any position in the array. This holds for every kind of node, for lists of nodes, and for pixel data "
     "given as a list or an array.",
     ["inputs", "configurations"], "all pixel values, pixel counts and strides, for every node kind, style and bit depth",
     TESTS + "they never mix strides, extra channels and several pixels with stateful caches.",
     [C + n for n in ("Range.py", "Matrix.py", "ASCCDL.py", "LUT1D.py", "LUT3D.py", "ExtensionGamma.py", "ExtensionLog.py",
                      "ExtensionExposureContrast.py", "ExtensionGroup.py", "Array.py", "ProcessList.py")],
     [("per-pixel loops of every process method", C + "*.py process"), ("list processing", C + "ProcessList.py ProcessList.process")],
     ["result of processing a node or a process list"])
prop("C02", "Channels beyond the colour channels pass through",
     "A fourth and every later channel of a pixel comes out of the colour nodes (ASC CDL, 1D LUT, 3D LUT, gamma, log, exposure/contrast and three-channel matrices) "
     "with the value it had on input, whatever the bit depths and the colour channels are. The colour channels do not depend on "
     "the extra channels.",
     ["inputs", "configurations"], "all values of colour and extra channels, all strides of at least three",
     TESTS + "all with three channels.",
     [C + n for n in ("ASCCDL.py", "LUT1D.py", "LUT3D.py", "Matrix.py", "ExtensionGamma.py", "ExtensionLog.py", "ExtensionExposureContrast.py")],
     [("copying of the remaining channels", C + "*.py process")], ["result of processing"])
prop("C03", "A process list is the composition of its nodes, in order",
     "Processing with a list gives what processing with its nodes one after the other in file order gives, also when the list is iterated, indexed or "
     "queried by name. The caller's pixel data is left unchanged, and repeating the call with the same data gives the same result.",
     ["inputs", "histories"], "all pixel values, all orders of nodes, repeated calls",
     TESTS + "one fixed list, once.",
     [C + "ProcessList.py", C + "ProcessNode.py", C + "ExtensionGroup.py"],
     [("list processing", C + "ProcessList.py ProcessList.process"), ("lookup", C + "ProcessList.py getProcess, __getitem__, __iter__")])
prop("C04", "A bypassed node is the same as no node",
     "A node marked as bypassed does nothing to the colours except that values are adapted from its input bit depth to its output bit depth "
     "when it stands between other nodes of a list whose depths agree. Only the value true bypasses, and when the Autodesk feature set is off the mark is "
     "ignored, inside groups as well.",
     ["inputs", "configurations"], "all pixel values, node kinds, bit depth pairs, bypass spellings and feature sets",
     TESTS + "no node is bypassed.",
     [C + "ProcessList.py", C + "ExtensionGroup.py", C + "ProcessNode.py"],
     [("bypass handling", C + "ProcessList.py ProcessList.process; ExtensionGroup.py Group.process"), ("bypass attribute", C + "ProcessNode.py getBypass, setBypass")])
prop("C05", "Bit depth conversions are exact scalings and inverse to each other",
     "Normalising a code value divides by the largest code of the bit depth (255, 1023, 4095, 65535, or 1 for the float depths) and the opposite conversion "
     "multiplies by it, for numbers and arrays alike. The two undo each other for every value.",
     ["inputs"], "all values and all six bit depths", TESTS + "conversions only of the values in one list.",
     [C + "ProcessNode.py"], [("bit depth conversion", C + "ProcessNode.py bitDepthToNormalized, normalizedToBitDepth, bitDepthSize")])
prop("C06", "A Range maps its limits linearly and clamps as configured",
     "With both limits given, a Range maps the lower and upper input limits to the output limits, linearly between them, and in the clamp style clamps "
     "to the output limits; with noClamp it does not clamp. With only one side given it clamps (and shifts) on that side only, and without any limits it rescales between bit depths.",
     ["inputs", "configurations"], "all limits and values, styles and bit depth pairs", TESTS + "one Range with fixed limits.",
     [C + "Range.py"], [("range", C + "Range.py Range.process")])
prop("C07", "A Matrix applies its coefficients row by row, in the stated bit depths",
     "Every output channel is the sum of the matrix row times the input channels, plus the offset when the matrix has one, for 3x3, 3x4, 4x4 and 4x5 matrices, with values "
     "in the code range of the input depth mapping to the code range of the output depth. A three-channel matrix leaves further channels alone.",
     ["inputs", "configurations"], "all coefficients, pixels and shapes", TESTS + "two fixed matrices.",
     [C + "Matrix.py", C + "Array.py"], [("matrix product", C + "Matrix.py Matrix.process")])
prop("C08", "ASC CDL follows the ASC formula in all four styles",
     "Forward: slope, offset, clamp, power, then saturation with Rec. 709 luma weights and clamp; the reverse styles invert the same steps in the opposite order. The noClamp styles "
     "do not clamp to 0..1 and apply the power only to values at or above zero, and any one of slope, offset, power and saturation may be left out. Where nothing is clamped the reverse style undoes "
     "the forward style.",
     ["inputs", "configurations"], "all parameters and pixels, the four styles, bit depth pairs, reading from .cc documents", TESTS + "one CDL in one style.",
     [C + "ASCCDL.py"], [("CDL", C + "ASCCDL.py ASCCDL.process")])
prop("C09", "Gamma applies its basic and moncurve functions per channel",
     "The basic styles raise non-negative values to gamma or 1/gamma and map negative values to zero; the moncurve styles use a power segment and a linear "
     "segment that meet at the break point; a channel without an offset has the power segment only. Parameters set for one channel affect only that channel, and forward and reverse styles undo each other.",
     ["inputs", "configurations"], "all parameters, pixels, styles", TESTS + "one gamma node.",
     [C + "ExtensionGamma.py"], [("gamma", C + "ExtensionGamma.py Gamma.process")])
prop("C10", "Log applies its logarithmic and Cineon functions per channel",
     "log10, log2, antiLog10 and antiLog2 compute those functions of the normalised value, and linToLog and logToLin the Cineon formula of gamma, reference white and black, "
     "highlight and shadow, with per-channel parameters affecting only their channel. The pairs are inverse to each other, and reference white and black map to highlight and shadow.",
     ["inputs", "configurations"], "all parameters, pixels, styles", TESTS + "one log node.",
     [C + "ExtensionLog.py"], [("log", C + "ExtensionLog.py Log.process")])
prop("C11", "Exposure/contrast follows its linear, video and log formulas",
     "In the linear style a value is scaled by 2^exposure, then raised to the contrast about the pivot; in the video style both are applied in the 1/1.83 power domain and in the log style the "
     "exposure is an offset and the contrast a scale about the log of the pivot.",
     ["inputs", "configurations"], "all parameters, pixels, styles", TESTS + "one exposure/contrast node in the linear style.",
     [C + "ExtensionExposureContrast.py"], [("exposure/contrast", C + "ExtensionExposureContrast.py ExposureContrast.process")])
prop("C12", "A 1D LUT interpolates linearly between its entries and clamps at its ends",
     "A value at an entry's position gives that entry, a value in between the linear interpolation of its two neighbours, and a finite value beyond the ends the first or last entry. With one "
     "column the same curve applies to the three colour channels, with three columns each has its own; an index map first maps inputs to entry positions; cubic interpolation falls back to linear.",
     ["inputs", "configurations"], "all entries and pixels, LUT sizes, columns, index maps, bit depths", TESTS + "one LUT.",
     [C + "LUT1D.py", C + "Array.py", C + "IndexMap.py"], [("1D lookup", C + "Array.py Array.lookup1D; LUT1D.py LUT1D.process")])
prop("C13", "A half-domain 1D LUT is indexed by the half-float code of the value",
     "With 65536 entries in half-domain mode, the value of each half float gives the entry at that half's 16-bit code, values between two neighbouring halves "
     "interpolate linearly between their entries, and values that round to infinity use the entries of the infinities, NaN that of NaN. Nearest lookup gives the entry of the nearest half.",
     ["inputs"], "all 32-bit float inputs and all LUT entries", TESTS + "half-domain only for a few points.",
     [C + "Array.py", C + "LUT1D.py", C + "Common.py"], [("half-domain lookup", C + "Array.py Array.lookup1DHalfDomain")])
prop("C14", "A 3D LUT interpolates its lattice and clamps at its faces",
     "At a lattice point the output is that point's entry, inside a cell it is the trilinear or tetrahedral interpolation of the cell's corners, and inputs beyond the cube use its "
     "nearest face. Red varies slowest and blue fastest, and each axis has its own size and index map.",
     ["inputs", "configurations"], "all entries and pixels, lattice sizes, interpolations, index maps", TESTS + "one 3D LUT.",
     [C + "Array.py", C + "LUT3D.py"], [("3D lookup", C + "Array.py Array.lookup3DTrilinear, lookup3DTetrahedral; LUT3D.py LUT3D.process")])
prop("C15", "An index map is a clamped piecewise linear function through its points",
     "A value at an input point maps to its paired index, a value in between linearly, and values outside to the first or last index. This holds with and without the lookup cache and "
     "after the points are changed.",
     ["inputs", "histories"], "all points and values, cache settings, repeated and changed lookups", TESTS + "no index map is queried directly.",
     [C + "IndexMap.py"], [("index map", C + "IndexMap.py IndexMap.process")])
prop("C16", "Writing a process list and reading it back preserves it",
     "A process list written to CLF and read back has the same attributes, descriptions, info, nodes and node parameters, numbers within the precision they are written with, "
     "and processes every pixel the same way. Writing does not change the list, and writing what was read gives the same document up to number precision.",
     ["inputs", "configurations"], "all parameter values of all node kinds and styles", TESTS + "one list is written and read.",
     [C + n for n in ("ProcessList.py", "ProcessNode.py", "Array.py", "IndexMap.py", "Info.py", "Comment.py", "Range.py", "Matrix.py", "ASCCDL.py", "LUT1D.py", "LUT3D.py",
                      "ExtensionGamma.py", "ExtensionLog.py", "ExtensionExposureContrast.py", "ExtensionGroup.py", "ExtensionReference.py")],
     [("readers and writers of every element", C + "*.py read, write")])
prop("C17", "Encoded array values survive a round trip bit for bit",
     "Array values written in the hexadecimal or integer encodings of half, single or double precision read back to the same value bit for bit, and arrays stored as raw half "
     "codes read back to the same codes and give the value of the half. Encoding and decoding are inverse to each other for every bit pattern that is a number.",
     ["inputs"], "all 2^16, 2^32 and 2^64 bit patterns", TESTS + "a few encoded arrays.",
     [C + "Common.py", C + "Array.py"], [("codes", C + "Common.py"), ("array encodings", C + "Array.py Array.read, write")])
prop("C18", "Strict reading rejects what the enabled feature sets do not cover",
     "Strict reading of a document with an unknown element, or with an extension element whose feature set is off, raises an error, at the top level and inside groups, plain or compressed; with "
     "the feature sets on it reads everything; the same goes for the style keywords of the Autodesk CDL. Reading that is not strict skips unknown elements only and keeps the rest, and writing compressed files or float encodings raises an error unless "
     "their feature set is on.",
     ["inputs", "configurations"], "all feature sets, element kinds, nesting, strictness, plain and compressed files", TESTS + "all features are enabled.",
     [C + "ProcessList.py", C + "ProcessNode.py", C + "Common.py", C + "Errors.py", C + "ExtensionGroup.py"],
     [("class lookup and feature check", C + "ProcessList.py ProcessList.read, getClass")])
prop("C19", "Compressed files and self-contained files hold the same list",
     "A list written compressed reads back the same as one written plainly, whatever the file is called. Writing self-contained replaces every resolved reference by the nodes of the file it "
     "refers to, at any depth, giving a document that processes pixels identically without that file; an unresolved or bypassed reference stays a reference.",
     ["inputs", "configurations"], "all parameter values, nestings of references and groups, compression on or off", TESTS + "one compressed file, no references.",
     [C + "ProcessList.py", C + "ExtensionReference.py", C + "ExtensionGroup.py"],
     [("file output and input", C + "ProcessList.py writeFile, readFile"), ("references", C + "ExtensionReference.py Reference.write, read")])
prop("C20", "SPI 1D LUT files convert to the curve they hold",
     "Reading an SPI 1D file gives a list whose processing maps the file's input range to its entries with linear interpolation and clamping, with one or three components, ignoring "
     "blank lines. Writing samples the list over the input range and reading that file back gives the same curve.",
     ["inputs", "configurations"], "all entries, ranges, lengths, components and pixels", "The LUT format tests are not among the stable ones and use one file per format.",
     [L + "LutSPI.py", L + "Sampling.py"], [("SPI 1D reader and writer", L + "LutSPI.py")])
prop("C21", "SPI 3D LUT files convert to the lattice they hold",
     "Reading an SPI 3D file gives a 3D LUT in which the entry printed with indices r g b sits at that lattice point, in whatever order the lines come, lines of fewer than six values ignored. Writing samples the "
     "list on the lattice, and reading that file back gives the same entries.",
     ["inputs", "configurations"], "all entries, sizes, line orders", "The LUT format tests are not among the stable ones and use one file per format.",
     [L + "LutSPI.py", L + "Sampling.py"], [("SPI 3D reader and writer", L + "LutSPI.py")])
prop("C22", "CSP LUT files convert to the preluts and LUTs they hold",
     "Reading a CSP file gives a list that applies each channel's prelut, exact at the positions it is resampled at and clamped at its ends, then the 1D or 3D LUT with the file's channel order, blank lines between the entries ignored. Writing 1D, 3D and 1D+3D forms and reading "
     "them back gives the same transform at the sampled positions.",
     ["inputs", "configurations"], "all entries, prelut points, sizes", "The LUT format tests are not among the stable ones and use one file per format.",
     [L + "LutCSP.py", L + "Sampling.py"], [("CSP reader and writer", L + "LutCSP.py")])
prop("C23", "CTL export writes what the list gives at the sampled positions",
     "The CTL 1D export holds one array per colour channel with the list's output sampled evenly over the input range, the 3D export a cube of the output at every lattice point with red slowest "
     "and blue fastest, and the range and size they state are those of the samples, so that a program looking values up in it gets the list's output at every sample position.",
     ["inputs", "configurations"], "all list outputs, resolutions and ranges", "The LUT format tests are not among the stable ones and use one file per format.",
     [L + "LutCTL.py", L + "Sampling.py"], [("CTL writer", L + "LutCTL.py")])
prop("C24", "The inverse of a monotone 1D LUT undoes it",
     "For every increasing 1D LUT, applying the LUT and then the generated inverse returns the original value within the resolution of the inverse, for all three kinds of inverse "
     "(resampled, half-domain, index map), including LUTs with flat stretches, where some preimage is returned. For values the LUT produces the output stays within the given input range.",
     ["inputs"], "all increasing LUTs and values", "No stable test generates an inverse.",
     [L + "Sampling.py", C + "LUT1D.py"], [("inverse generation", L + "Sampling.py generateLUT1DInverse*")])
prop("C25", "Baking a list to LUTs samples it at the right positions in the right order",
     "Sampling a list to a 1D or 3D LUT gives entries equal to the list's output at evenly spaced inputs over the range, per channel and in lattice order, for any sizes per axis. A baked 1D/3D/1D "
     "CLF reproduces the list at the sample positions of its shaper for each shaper type.",
     ["inputs", "configurations"], "all lists, resolutions, ranges and shapers", "No stable test bakes LUTs.",
     [L + "Sampling.py", L + "LutCLF.py"], [("sampling", L + "Sampling.py sample1D, sample3D, createShaper, sample1D3D1D")])
prop("C26", "File formats are chosen by extension and capability",
     "Reading and writing pick the format registered for the file's extension, upper or lower case, and support of reading, writing and LUT kinds is reported as the format "
     "implements it. Files of unknown formats are reported and nothing is written.",
     ["inputs", "configurations"], "all registered formats, capabilities, extensions", "No stable test uses the registry.",
     [L + "Registry.py", L + "LutFormat.py"], [("registry", L + "Registry.py"), ("capabilities", L + "LutFormat.py")])
prop("C27", "The command line converters honour their options",
     "The converters read the given input, apply resolution, 1D/3D form, shaper, sample range, inverse and color space options as given and write the given output, with the documented defaults "
     "for options left out. The result equals calling the library with those settings, and settings left out in calls of the library take the same defaults.",
     ["configurations", "inputs"], "all combinations of options", "No stable test runs the converters.",
     ["python/aces/convertCLFtoLUT.py", "python/aces/convertLUTtoCLF.py", "python/aces/convertOCIOtoCLF.py"], [("option handling", "main of the converters")])
prop("C28", "Image filtering applies the list to every pixel exactly once",
     "Filtering an image writes an image of the same size and channel count in which each pixel is the list's result for the input pixel at the same position, for any width, height "
     "and channel count, whether rows are processed one after another or in parallel, and independent of the stride option.",
     ["inputs", "configurations", "schedules"], "all pixel values, sizes, channel counts, worker counts", "No stable test filters an image.",
     ["python/aces/filterImageWithCLF.py"], [("row filters", "python/aces/filterImageWithCLF.py filterRow_*, filterImageWithCLF")])
prop("C29", "Image pixels are read and written without loss",
     "Integer pixels read from an image are the codes of its depth, 10 and 12 bit ones taken from the top of their 16 bit samples, and writing them again gives back the same samples; half and float "
     "pixels keep their bits. Other values are clamped to the codes of the output depth and rounded to the nearest, and size, channels and metadata are passed on.",
     ["inputs", "configurations"], "all pixel codes, depths, channel counts", "No stable test reads or writes an image.",
     ["python/aces/filterImageWithCLF.py"], [("pixel input and output", "python/aces/filterImageWithCLF.py readPixelArray, writePixelArray, half packing")])
prop("C30", "OCIO transforms convert to nodes that compute the same",
     "Forward matrix transforms with offsets, log transforms to base 2 and 10 and file transforms of an OCIO configuration become nodes that compute the same function in the stated direction, in order, "
     "a group becomes its members (inverted, last first, if the group is inverse), and a color space that defines only the other direction its inverse; transforms without a counterpart (inverse matrices and 3D LUTs, other bases and kinds) are left out and reported.",
     ["inputs", "configurations"], "all coefficients, transform kinds and directions", "No stable test converts a configuration.",
     ["python/aces/convertOCIOtoCLF.py"], [("conversion", "python/aces/convertOCIOtoCLF.py convertTransformsToProcessNodes")])
prop("C31", "Groups and references compute what their contents compute",
     "A group gives the same result as its nodes placed directly in the list, at any nesting depth, and a reference the same as the file it names, its path taken relative to its base path. "
     "A reference to a file that does not exist changes nothing, and pointing a reference to another path takes effect for processing and writing.",
     ["inputs", "configurations"], "all contents, nestings, path settings and pixels", TESTS + "one group, never compared with its contents.",
     [C + "ExtensionGroup.py", C + "ExtensionReference.py"], [("group", C + "ExtensionGroup.py Group.process"), ("reference", C + "ExtensionReference.py Reference.process, read")])
prop("C32", "A document stays readable if writing it is interrupted",
     "If the process dies while a CLF file is being written, the file holds either the old or the new document.",
     ["crash_points"], "all crash points of writing", "No test crashes the writer.",
     [C + "ProcessList.py"], [("file output", C + "ProcessList.py ProcessList.writeFile")])
prop("C33", "Text content of any kind survives in documents",
     "Descriptions, names and info fields of any Unicode text survive writing and reading.",
     ["inputs"], "all strings", TESTS + "ASCII text only.",
     [C + "Comment.py", C + "Info.py", C + "ProcessList.py"], [("text", C + "Comment.py, Info.py")])
prop("C34", "Settings take effect whenever they are made",
     "A node whose parameters, style or bit depths are set again after it processed pixels, was printed or was written computes and writes exactly what a new node with the last settings does. "
     "Lists and groups follow nodes added or changed after use. Nodes, lists and documents that were made separately share no settings, and processing changes none.",
     ["inputs", "histories"], "all settings and pixels; sequences of setting, using, setting again for every node kind", TESTS + "and set every parameter once, before the first use.",
     [C + n for n in ("ProcessNode.py", "ProcessList.py", "Range.py", "Matrix.py", "ASCCDL.py", "LUT1D.py", "LUT3D.py", "IndexMap.py", "ExtensionGamma.py", "ExtensionLog.py", "ExtensionExposureContrast.py", "ExtensionGroup.py", "Array.py")],
     [("setters", C + "*.py set*, add*"), ("use of the settings", C + "*.py process, write")])
prop("C35", "Documents are read by their meaning, not their form",
     "A document gives the same list whatever its white space, line breaks, order of attributes and of parameter elements, quotes, namespaces and prefixes, comments, descriptions, and spellings of numbers. "
     "Optional attributes and elements that are left out take their defaults: identity parameters, clamping ranges, forward CDL, log10, basicFwd and linear styles, linear and trilinear interpolation, half-float depths; so do arguments left out when nodes are made.",
     ["inputs", "configurations"], "all parameter values, pixels and spellings of documents for every node kind", "The stable tests read only what the library wrote.",
     [C + n for n in ("ProcessNode.py", "ProcessList.py", "Range.py", "Matrix.py", "ASCCDL.py", "LUT1D.py", "LUT3D.py", "IndexMap.py", "ExtensionGamma.py", "ExtensionLog.py", "ExtensionExposureContrast.py", "ExtensionGroup.py", "Array.py")],
     [("reading", C + "*.py read, readChild"), ("defaults", C + "*.py __init__, process")])

prop("C36", "Printed information is what is in use",
     "printInfo of a list, group or node states, at every level of nesting, the type, attributes, descriptions, parameters in use, array values and index maps (all, or the first and last three rows of long ones) that processing uses. "
     "Verbose processing reports the pixel after each node, in order, and gives the same outcome as quiet processing.",
     ["inputs", "configurations"], "all parameter values and pixels; every node kind, nesting and array length within the bounds", "The stable tests print nothing.",
     [C + n for n in ("ProcessNode.py", "ProcessList.py", "Array.py", "IndexMap.py", "Comment.py", "Info.py", "ASCCDL.py", "Range.py", "ExtensionGamma.py", "ExtensionLog.py", "ExtensionExposureContrast.py", "ExtensionGroup.py", "ExtensionReference.py")],
     [("printing", C + "*.py printInfo, printInfoChild"), ("verbose processing", C + "ProcessList.py ProcessList.process")])

NOT_APPLICABLE = {
    "C32": "CLF does not provide it: the file is opened for writing in place, and the README promises nothing about crashes, so there is no guarantee to decide",
    "C33": "the text passes through the C parser and serialiser of the Python standard library (expat, minidom); that is not this repository's code and strings of arbitrary "
           "content cannot be executed symbolically through it",
}
NOTE = "The deciding step is Z3's verdict over all values of the symbolic inputs of each scenario; structures (sizes, styles, bit depths) are the enumerated scenario parameters. " \
       "Pixel arithmetic is over the reals, with float effects only where a scenario says bit-exact; numpy, the XML library and file objects are modelled by the engine and every " \
       "violation is confirmed on the real code before it is reported. Bounds and what lies outside them are in the evidence file."


def main():
    claimed = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("c") and f[1:3].isdigit())
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s quick" % p["id"],
                "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "technique": "symbolic execution of the real Python source with Z3",
                "level": "model_checking",
                "level_note": NOTE,
            })
        else:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")})
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
