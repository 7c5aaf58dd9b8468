RM = "runtime monitoring: "
p("P01", "Losslessly coded images decode to exactly the coded samples",
  "For every valid losslessly (modular) coded still image, decoding succeeds and every channel has the coded size and exactly the coded sample values. This holds whatever prediction trees, predictors, self-correcting predictor parameters, colour, palette and squeeze transforms, entropy codes, group sizes, passes and per-group settings the encoder chose.",
  ["inputs", "configurations"], "every valid modular codestream: image sizes, bit depths, channel counts, decision trees, transform chains, group layouts, pass layouts",
  "The tests decode a few sample files and unit-test pieces with fakes; the space of trees x transforms x layouts is combinatorial, and the tests never compare pixels with what an encoder put in.",
  ["frame/ModularStream.go", "frame/ModularChannel.go", "frame/MATree.go", "frame/LFGlobal.go", "frame/PassGroup.go", "frame/Frame.go", "frame/WPParams.go", "frame/transformtype.go", "core/jxl_codestream_decoder.go"],
  [("modular stream decoding and inverse transforms", "frame/ModularStream.go"), ("prediction, squeeze and weighted predictor", "frame/ModularChannel.go"), ("group placement", "frame/Frame.go")],
  tech=RM + "independent encoder as reference model, exact comparison of every decoded sample",
  note="Sample-exact over thousands of random codestreams per run; says nothing about encodings the generator cannot produce (listed in DESIGN.md).")
p("P02", "Entropy-coded data decodes to exactly the encoded symbols",
  "For every valid entropy-coded stream (prefix or ANS codes, any context clustering, hybrid-integer configuration and LZ77 setting) the decoder returns exactly the encoded values in order, consumes exactly the coded bits and confirms the end-of-stream check.",
  ["inputs", "configurations"], "every valid entropy code header and symbol sequence",
  "Unit tests decode a handful of hand-made streams; alias tables, run-length-coded distributions, move-to-front clusterings and LZ77 special distances interact combinatorially.",
  ["entropy/EntropyStream.go", "entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "entropy/VLCTable.go", "entropy/HybridIntegerConfig.go", "entropy/SymbolDistribution.go"],
  [("symbol decoding, LZ77 and clustering", "entropy/EntropyStream.go"), ("ANS distributions and alias mapping", "entropy/ANSSymbolDistribution.go"), ("prefix codes", "entropy/PrefixSymbolDistribution.go")],
  tech=RM + "independent entropy encoder, symbol-by-symbol trace comparison",
  note="Exact over the streams generated; covers every header form of both code types.")
p("P03", "Bit-level reads return exactly the bits of the source, or an error",
  "Every sequence of bit-level reads, peeks, skips, paddings and seeks returns the values the byte string defines, keeps position and consumed-bit counts right, and a read past the end or past an input fault returns an error rather than data. This holds for every reader that honours Go's io.Reader contract, including ones that return few bytes at a time.",
  ["inputs", "fault_sequences", "histories"], "every byte string, operation sequence and reader fragmentation or failure pattern",
  "Unit tests use in-memory readers that always deliver everything and short fixed operation sequences.",
  ["jxlio/bitreader.go", "jxlio/IOHelper.go"],
  [("bit reader", "jxlio/bitreader.go")],
  tech=RM + "lock-step comparison with an arbitrary-precision bit model over hostile readers",
  note="Exact over random operation histories on all operations of the reader, including injected faults and fragmentation.")
U = None
p("P04", "The container around a codestream does not change the image",
  "A bare codestream and the same codestream inside any valid container (one codestream box of any size encoding, or split over several partial boxes, among other boxes in any order) decode to identical images, with identical header information.",
  ["inputs", "configurations"], "every valid box layout around every codestream",
  "Tests contain two container files; box sizes, extra boxes and split points are unbounded.",
  ["core/read_jxl_boxes.go", "core/jxl_codestream_decoder.go", "core/jxl_decoder.go"],
  [("box parsing", "core/read_jxl_boxes.go"), ("codestream location", "core/jxl_codestream_decoder.go")],
  tech=RM+"metamorphic comparison over random container layouts, box size forms and hostile readers",
  note="Exact image comparison of each codestream bare and in random valid containers; container features outside the decoder's scope (brob, jbrd) appear only as boxes to skip.")
p("P05", "Orientation is applied exactly as the header says",
  "The decoded image is the coded image transformed by exactly the flip, rotation or transposition the header's orientation names, for every channel, size and sample type, with the width and height swapped where the orientation transposes.",
  ["inputs", "configurations"], "all eight orientations x image sizes x channel types",
  "Tests exercise orientation on fixed small buffers.",
  ["core/jxl_codestream_decoder.go", "bundle/image_header.go"],
  [("orientation", "core/jxl_codestream_decoder.go")],
  tech=RM+"independent orientation model over random images",
  note="Sample-exact for all eight orientations over random sizes and channel layouts.")
p("P06", "Decoding is deterministic and independent of what was decoded before",
  "Decoding the same bytes always gives the same result, whatever images (valid or broken) were decoded earlier in the process, whatever number of goroutines is allowed and however buffers were recycled.",
  ["histories", "schedules", "configurations"], "every history of earlier decodes, goroutine limit and scheduling",
  "Tests decode each file once in a fresh state; recycled buffers only matter over histories.",
  ["util/buffer_pool.go", "frame/Frame.go", "frame/PassGroup.go", "frame/HFCoefficients.go", "options/options.go"],
  [("buffer pools", "util/buffer_pool.go"), ("pass-group workers", "frame/Frame.go")],
  tech=RM+"every decode repeated in fresh processes, in long mixed histories and under different worker limits, outcomes compared",
  note="Compares complete outcomes (errors included) across processes and histories; samples the space of histories.")
p("P07", "Concurrent decodes never race and give the sequential results",
  "Any number of decoders running at once in one process access no shared memory without synchronisation, and each produces exactly the result it produces alone; so do conversions of one decoded image from several goroutines at once.",
  ["schedules", "histories"], "every interleaving of concurrent decodes and of one decode's own worker goroutines",
  "Tests are sequential and run without the race detector.",
  ["frame/Frame.go", "util/buffer_pool.go", "frame/PassGroup.go", "core/jxl_decoder.go"],
  [("group workers", "frame/Frame.go"), ("shared pools", "util/buffer_pool.go")],
  tech=RM+"race detector over concurrent decodes of many streams, outcomes compared with solo decodes",
  note="The race detector reports only races on executed interleavings; several thousand decodes under varying GOMAXPROCS per run.")
p("P08", "No input crashes or hangs the decoder",
  "For every byte string, decoding, header queries and image registration return an image or an error, in time and memory bounded by the length of the input and the size it declares, and what they return can be written out; they never panic, deadlock or terminate the process, in any goroutine, nor leave goroutines behind.",
  ["inputs"], "every byte string, in particular mutated, truncated and adversarially constructed codestreams",
  "Tests feed a few malformed fragments; panics in worker goroutines cannot be recovered by a caller.",
  ["core/jxl_decoder.go", "core/jxl_codestream_decoder.go", "frame/Frame.go", "bundle/image_header.go", "entropy/EntropyStream.go", "reader.go"],
  [("decoder entry points", "core/jxl_decoder.go")],
  tech=RM+"runtime monitoring: structure-aware and byte-level mutation of generated streams, constructed resource bombs, panic, crash, hang, memory and goroutine monitors in capped worker processes",
  note="Thousands of hostile inputs per run over every entry point; resource limits are judged from the input's length and declared size, declared sizes over 4 million samples only before the image is allocated.")
p("P09", "Incomplete or failing input yields an error, never an image",
  "If the input ends early, or its reader fails, before the last needed byte, decoding returns an error and no image; a failure inside any section is never swallowed.",
  ["crash_points", "fault_sequences", "inputs"], "every truncation point and every read at which the source fails, for every valid image",
  "Tests have no fault injection; the truncation points of every section are many.",
  ["frame/Frame.go", "core/jxl_codestream_decoder.go", "jxlio/bitreader.go"],
  [("section reading", "frame/Frame.go")],
  tech=RM+"fault injection at chosen and random byte positions, outcome monitor",
  note="Every truncation or read-fault position of a set of sample and generated images in turn, with the error required exactly when a needed byte is missing.")
p("P10", "Header-only queries agree with a full decode",
  "For every valid image the size, colour model and header a header-only query reports are those of the image a full decode returns, and the standard library's image registration can both query and decode it.",
  ["inputs", "configurations"], "every valid image, orientation and container form",
  "Tests query one file.",
  ["reader.go", "core/jxl_decoder.go", "core/jxl_codestream_decoder.go"],
  [("format registration", "reader.go"), ("header query", "core/jxl_decoder.go")],
  tech=RM+"sizes, colour models, headers and pixels of every query form compared with the coded image and the full decode",
  note="Covers lossless and modular XYB images of every header variety plus the sample files.")
p("P11", "Image header fields are read exactly as coded",
  "Every image header field (size, orientation, bit depth, extra channels, colour encoding, tone mapping, opsin matrix, upsampling weights, preview, animation and extension data) is reported with exactly the coded value, and the following data is found at the right bit.",
  ["inputs"], "every valid image header",
  "Tests parse a few hand-made headers.",
  ["bundle/image_header.go", "bundle/extra_channel_info.go", "colour/colour_encoding_bundle.go", "colour/OpsinInverseMatrix.go"],
  [("header parsing", "bundle/image_header.go")],
  tech=RM+"independent header writer covering every field, every decoded field compared",
  note="Every field of random headers; a frame follows most of them and its samples are compared too.")
p("P12", "PNG output is valid and faithful to the decoded image",
  "Writing a decoded image as PNG produces a file that an independent PNG decoder accepts and whose size, channels, alpha and samples equal the decoded ones at the depth written, whatever the writer wrote before; every failure of the underlying writer is reported.",
  ["inputs", "configurations"], "every decoded image: sizes, bit depths, grey/colour, with and without alpha and other extra channels",
  "Tests write a few fixed images and do not read them back.",
  ["core/png_writer.go", "core/jxl_image.go"],
  [("PNG writer", "core/png_writer.go")],
  tech=RM+"chunk walk and independent PNG decoder over the written files, pixels compared with independent conversion formulas",
  note="HDR files are checked for structure and size only, not for their sample values.")
p("P13", "Conversion to Go images preserves size, samples and alpha, repeatably",
  "Converting a decoded image to a standard Go image gives the decoded size and samples (rounded to the depth of the Go image), treats alpha as the header says, and converting again gives the same picture.",
  ["inputs", "histories"], "every decoded image and every sequence of conversions",
  "Tests convert one file.",
  ["core/jxl_image.go", "image/imagebuffer.go"],
  [("image conversion", "core/jxl_image.go")],
  tech=RM+"every pixel of converted images compared with independent float64 conversion formulas, before and after repeated conversions",
  note="HDR conversions are checked for size, determinism and side effects only, not for sample values.")
p("P14", "PFM output holds exactly the decoded samples",
  "Writing a decoded image as PFM produces a well-formed file of the decoded size whose samples are the decoded ones; every failure of the underlying writer is reported.",
  ["inputs"], "every decoded image", "Tests do not parse the output.",
  ["core/pfm_writer.go"], [("PFM writer", "core/pfm_writer.go")],
  tech=RM+"independent PFM parser over the written files, every sample compared",
  note="Samples are compared to the precision float32 gives.")
p("P15", "Multi-frame images composite exactly as their frame headers say",
  "For every valid sequence of frames (crops with any origin, blend modes per channel, reference slots, saving before or after colour transform) the final image is the one the frame headers define.",
  ["inputs", "histories"], "every frame sequence, crop rectangle, blend mode and reference slot",
  "Tests blend a few fixed buffers.",
  ["core/jxl_codestream_decoder.go", "frame/FrameHeader.go", "frame/BlendingInfo.go"],
  [("frame blending", "core/jxl_codestream_decoder.go")],
  tech=RM+"every delivered sample of images made of several frames compared with a double-precision model of the composition the frame headers define",
  note="Sources are slots saved after the colour transform; XYB frames only replace (mixing them depends on the output colour space). Samples blended out of almost nothing (combined alpha within 20 rounding errors of zero) are not judged.")
p("P16", "Upsampled frames and channels follow the coded upsampling weights",
  "Frames and extra channels coded at reduced resolution decode at full size with every sample equal to the weighted, clamped neighbourhood the default or custom weights define.",
  ["inputs", "configurations"], "factors 2, 4, 8 x sizes x weights x channels",
  "Tests upsample little.",
  ["frame/Frame.go", "bundle/image_header.go"], [("upsampling", "frame/Frame.go")],
  tech=RM+"every sample of enlarged frames and channels compared with a double-precision model of the specified upsampling",
  note="Enlarged samples are compared within 2e-6 of the magnitude of the terms summed (lossy frames: plus the tolerance of P17). Sums above 1e37 are not judged.")
p("P17", "Lossy (VarDCT) images decode to the samples the coefficients define",
  "For every valid VarDCT frame the decoded samples equal, within a small numeric tolerance, a direct evaluation of the coded coefficients: dequantisation, chroma from luma, low-frequency reconstruction and smoothing, inverse transforms of every block shape, and colour conversion.",
  ["inputs", "configurations"], "every coefficient set, block shape mix, quantiser, weights table, group layout",
  "Tests decode a few photos and only check that it works.",
  ["frame/HFCoefficients.go", "frame/PassGroup.go", "frame/HFGlobal.go", "frame/lfcoefficients.go", "frame/hfmetadata.go", "frame/HFPass.go", "util/MathsHelper.go"],
  [("coefficient decoding", "frame/HFCoefficients.go"), ("inverse transforms", "frame/PassGroup.go"), ("LF", "frame/lfcoefficients.go")],
  tech=RM+"double-precision reconstruction from the coefficients by an independent encoder and decoder model, every sample compared",
  note="Decoded values are compared within 4e-5 of the magnitude of the terms summed (1.6e-4 for blocks of 64 samples and more). Adaptive LF smoothing is an open finding pinned by unit tests: such frames must equal the pinned formula.")
p("P18", "Restoration filters change samples exactly as their parameters say",
  "With the smoothing and edge-preserving filters enabled with any parameters, the decoded samples equal, within numeric tolerance, the filter definitions applied to the unfiltered frame, and disabled filters change nothing.",
  ["inputs", "configurations"], "every filter parameter set and image", "Tests run filters on the sample files only.",
  ["frame/Frame.go", "frame/RestorationFilter.go"], [("filters", "frame/Frame.go")],
  tech=RM+"every sample compared with a double-precision model of the smoothing and edge-preserving filters applied to what an independent encoder coded",
  note="The header of the edge-preserving filter is decoded without the flag for own channel weights (known finding, pinned by unit tests): where the specified layout fails, the same frame is decoded in the pinned layout and must match. Grey images use the smoothing filter only.")
p("P19", "Colour conversion follows the opsin matrix, primaries and transfer curve",
  "Samples of XYB and other colour-transformed images convert to the declared colour space within numeric tolerance of the defining equations.",
  ["inputs", "configurations"], "every colour encoding and sample", "Tests check a few constants.",
  ["colour/OpsinInverseMatrix.go", "colour/colour_management.go", "colour/transfer_function.go", "core/jxl_image.go"], [("colour", "colour/OpsinInverseMatrix.go")],
  tech=RM+"runtime monitoring: online oracle comparing every decoded sample with a double-precision evaluation of the colour equations",
  note="Lossless and lossy XYB frames with random opsin parameters, LF multipliers, intensity targets, primaries and white points, grey, YCbCr with every subsampling, and the transfer curves of the exported API.")
p("P20", "Embedded ICC profiles come out byte for byte",
  "For every image with an embedded colour profile the decoded profile equals the embedded one byte for byte.",
  ["inputs"], "every profile and every valid compressed form of it", "Tests have no ICC round trip.",
  ["bundle/image_header.go"], [("ICC decoding", "bundle/image_header.go")],
  tech=RM+"independent ICC encoder covering every command, byte comparison of the decoded profile",
  note="Byte-exact over random profiles and command sequences.")
p("P21", "The order in which sections are stored does not change the image",
  "A frame whose sections are stored in any permuted order, or split into any number of passes, decodes to the same image as in natural order.",
  ["inputs", "configurations"], "every permutation and pass split", "Sample files store natural order.",
  ["frame/Frame.go"], [("table of contents", "frame/Frame.go")],
  tech=RM+"metamorphic comparison over section permutations and pass splits",
  note="Exact comparison for generated lossless frames; permutations of sample VarDCT sections are re-ordered too.")
p("P22", "Unsupported features are refused, never decoded wrongly",
  "An image that uses a feature the decoder does not implement makes decoding return an error; it never returns an image with the feature ignored, and never panics.",
  ["inputs", "configurations"], "every unsupported feature in every combination", "Tests check few rejections.",
  ["core/jxl_codestream_decoder.go", "frame/LFGlobal.go", "frame/Frame.go"], [("feature checks", "core/jxl_codestream_decoder.go")],
  tech=RM+"runtime monitoring: every decoding entry point observed on images using unsupported features, with the same image without the feature as control",
  note="Valid noise, patch, spline, animation and preview content in all kinds of frames and compositions, sample files, and unknown transfer curves on output.")
p("P23", "Recycled buffers are never shared, and decodes leak nothing",
  "Buffers handed out by the recycling pools are of the requested shape, zeroed where promised and never held by two users at once, a returned image never aliases recycled memory, and a decode leaves no goroutine behind.",
  ["histories", "schedules"], "every sequence and interleaving of takes and returns", "Tests take and return single buffers.",
  ["util/buffer_pool.go", "frame/Frame.go"], [("pools", "util/buffer_pool.go")],
  tech=RM+"ownership model over random get/put histories of the buffer pools",
  note="Judges the exported pool API: exact sizes, zeroing, no aliasing between live buffers; not which buffer is reused.")
p("P24", "Forward and inverse transforms are exact inverses at every size",
  "The inverse block transforms of every supported size equal their mathematical definition within tolerance, and forward followed by inverse restores the input, for every offset and buffer position.",
  ["inputs"], "every size, offset and input block", "Tests sample fixed blocks.",
  ["util/MathsHelper.go"], [("DCT", "util/MathsHelper.go")],
  tech=RM+"comparison with a float64 direct evaluation of the transform",
  note="Every supported size, offset inputs, both directions; tolerance covers float32 rounding.")
p("P26", "Extra channels decode exactly at their own depth and resolution",
  "Each extra channel is decoded with its own bit depth and sub-sampling and delivered with the image's size and exactly the coded values, and never disturbs the colour channels.",
  ["inputs", "configurations"], "every number, type, depth and sub-sampling of extra channels", "Tests have one alpha image.",
  ["frame/Frame.go", "frame/ModularStream.go", "bundle/extra_channel_info.go"], [("extra channels", "frame/Frame.go")],
  tech=RM+"every delivered sample compared with what an independent encoder coded, at each channel's own depth and resolution",
  note="Floating point samples with the largest exponent (infinities, NaN) are not generated. Channels deeper than 24 bits are coded with single-leaf trees and no transforms, since wider intermediate values are not defined.")
p("P25", "Decoding honours its options and leaves them alone",
  "A decode never keeps more goroutines at work than the options allow, any positive limit included, gives the same image under every limit, keeps to the options given when the decoder was made, and never changes them; without options the defaults apply.",
  ["configurations", "schedules"], "every positive goroutine limit, image and schedule",
  "Tests read single fields of the option structure.",
  ["options/jxl_options.go", "frame/Frame.go", "core/jxl_decoder.go"],
  [("options", "options/jxl_options.go"), ("worker limits", "frame/Frame.go")],
  tech=RM+"snapshots of all goroutines during decodes under a limit, counting the decoder's goroutines at work; option structures and outcomes compared",
  note="Goroutines that begin or end are seen in passing, so a limit counts as broken when a quarter of the snapshots show more than allowed.")
p("P27", "A decoded image describes itself truthfully, and its buffers keep their values",
  "Size, channel count, extra channel types, alpha, profile and sample type a decoded image reports are the coded ones; the data of every channel can be fetched and replaced by index, with an error for any index out of range; and copying, comparing, casting, cropping and clamping sample buffers keep exactly the values they should, sharing nothing with the original, and an operation that is refused changes nothing.",
  ["inputs", "histories"], "every decoded image, channel index and sequence of buffer operations",
  "Tests use a few hand-made buffers.",
  ["core/jxl_image.go", "image/imagebuffer.go"],
  [("accessors", "core/jxl_image.go"), ("sample buffers", "image/imagebuffer.go")],
  tech=RM+"accessors compared with the coded image, and random sequences of buffer operations run beside a model",
  note="Buffers of up to 9x9 samples and 20 bits in the operation sequences.")
p("P28", "The jxltopng command writes a faithful PNG or fails cleanly",
  "For every input file the command either exits with status 0 and leaves a PNG holding exactly the decoded picture at the named output (with the embedded profile if there is one), or exits with another status, having changed no existing output file on account of an input it could not decode; it never panics, and debug logging makes no difference.",
  ["inputs", "fault_sequences"], "every input file, valid, damaged, unsupported or missing, and every state of the output path",
  "No test runs the command.",
  ["tools/jxltopng/main.go", "core/jxl_image.go", "core/png_writer.go"],
  [("command", "tools/jxltopng/main.go")],
  tech=RM+"the built command run as a process in scratch directories; exit status, standard error, output, input and directory contents monitored, every pixel compared",
  note="Over a thousand runs on generated images, damaged inputs and unusable paths.")
p("P29", "Contradictory streams are refused",
  "A stream that contradicts the format or itself is refused with an error and without an image wherever the contradiction stands: entropy coder streams that do not end in their final state, impossible probability tables, code lengths, integer configurations and prediction trees, transforms of unknown kind or of channels that do not exist, impossible permutations, enumerations, infinite or undefined numbers and tone mapping values, impossible upsampling and blending, profile commands that are unknown or do not produce the announced size, negative weights, coefficients announced but not coded, block layouts that overflow or do not cover the image, and box sizes too small for a box.",
  ["inputs"], "every valid stream, and every place in it where one of the contradictions can stand",
  "Tests feed single hand-made values to single parsers.",
  ["entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "entropy/EntropyStream.go", "frame/MATree.go", "frame/ModularStream.go", "frame/HFCoefficients.go", "frame/hfmetadata.go", "frame/HFGlobal.go", "frame/Frame.go", "bundle/image_header.go", "colour/colour_encoding_bundle.go", "colour/ToneMapping.go", "core/read_jxl_boxes.go"],
  [("entropy coding", "entropy/EntropyStream.go"), ("frames", "frame/Frame.go"), ("headers", "bundle/image_header.go")],
  tech=RM+"fault injection in an independent encoder: each valid image is coded again with one contradiction at a random place, and every decode is watched for an image or a missing error",
  note="About 60 kinds of contradiction. Leniencies without consequences for the image (set padding bits, unused clusters, unread data after a profile of 128 bytes) are not judged.")
