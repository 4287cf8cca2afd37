"""The properties, once: generates properties.jsonl and MANIFEST.json (python3 vf/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the LLVM IR of the real sources, every assertion decided by an SMT solver (z3); counterexamples replayed on a sanitizer build'
P = []
NA = []


def p(id, title, statement, over, text, tests, files, mech, note='', **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=tests,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, note=note, **kw))


AN = 'lib/analysis.c'
ME = 'lib/methods.c'
p('C01', 'Results lists: sorted, distinct, ending with the original size',
  'A successful analysis returns, for each dimension asked for, a list with at least one element, sorted by descending confidence, naming distinct sizes from 1 up to the original size, whose last element is the original size with confidence -1. The list holds as many elements as the reported count and is released with one free.',
  ['inputs', 'configurations'], 'all images, all methods, every threshold in [0,1] or unset, every number of images, both dimensions',
  'The tests check the results of a few fixed images with one or two candidates; order and distinctness must hold for every combination of confidences, ties included.',
  [AN], [('generate_dimension_results', AN), ('sort comparison', AN)])
p('C02', 'Every confidence lies between 0 and 1',
  'Every confidence reported for a size other than the original is a number between 0 and 1 inclusive, never NaN, for every method, every image, every range and any number of frames.',
  ['inputs', 'configurations'], 'all finite spectra (zeros, subnormals and huge values included), all methods, one or more frames',
  'The tests only exercise natural spectra; overflow, division by zero and rounding appear for particular magnitudes only.',
  [ME, AN], [('method functions', ME), ('averaging', AN)])
p('C03', 'A size is listed exactly when its confidence reaches the threshold',
  'With no compression filter, a size is listed exactly when its confidence is at least the threshold, and with the same confidence for every threshold; with threshold 0 every size with enough neighbours on both sides is listed. An unset threshold means the default threshold of the chosen method.',
  ['inputs', 'configurations'], 'every threshold in [0,1], all spectra, all methods, both dimensions, equality included',
  'A test samples a few thresholds; whether >= or > is used, or whether a candidate at either end is lost, only shows for particular confidences and sizes.',
  [AN], [('generate_dimension_results', AN)])
MEAS = ['inputs', 'configurations']
p('C04', 'The sign measure counts sign inversions about each size',
  'With the method "sign", the confidence of a candidate size is the fraction, over all lines, all distances 1..range and all frames, of mirrored pairs of transform coefficients about that size having opposite signs (negative zero being negative).',
  MEAS, 'all spectra, sizes, ranges, numbers of lines and frames, both dimensions', 'The tests compare a handful of images at the default range; an off-by-one in range, an ignored line or a mishandled negative zero passes them.',
  [ME], [('method function', ME)])
p('C05', 'The mag measure counts inversions of similar magnitude',
  'With the method "mag", the confidence of a candidate size is the fraction, over all lines, distances 1..range and frames, of mirrored pairs with opposite signs where the smaller-position coefficient is less than twice the other in magnitude (the divisor being at least a tiny epsilon).',
  MEAS, 'all spectra, sizes, ranges, numbers of lines and frames, both dimensions', 'The tests compare a handful of natural images; extreme magnitudes and zero divisors never occur in them.',
  [ME], [('method function', ME)])
p('C06', 'The orig measure is the sign measure where magnitude dips',
  'With the method "orig", the confidence of a candidate size is the sign measure of the frame where the mean magnitude at that size lies below both of two similar neighbourhoods of the given range, and zero elsewhere, averaged over frames.',
  MEAS, 'spectra of even integers in [-2^16,2^16), sizes, ranges, numbers of lines and frames, both dimensions', 'The tests compare a handful of natural images; the strictness of each comparison and the sliding sums matter only for particular spectra.',
  [ME], [('method function', ME)])
p('C07', 'The zerox measure counts monotonic zero crossings',
  'With the method "zerox", the confidence of a candidate size is the fraction, over all lines and frames, of triples of adjacent coefficients about that size that strictly rise or fall through a sign change, whatever range was set.',
  MEAS, 'all spectra, sizes, ranges, numbers of lines and frames, both dimensions', 'The tests compare a handful of natural images; ties, signed zeros and a range other than the default are not covered.',
  [ME], [('method function', ME), ('range override', AN)])
p('C08', 'Transposing the image swaps width and height results',
  'Analysing the transposed image gives, for its height, exactly the results the image gives for its width, and the reverse, for every method.',
  ['inputs', 'configurations'], 'all spectra, all methods, non-square sizes', 'No test analyses an image and its transpose; width and height use different strides and separate code paths.',
  [AN, ME], [('per-dimension calls', AN)])
p('C09', 'Sequences: the mean over frames, repeatable results',
  'Analysing several frames gives each candidate the mean of its single-frame confidences; results may be obtained between frames and any number of times without changing later results.',
  ['inputs', 'histories'], 'all sequences of two or three frames, all methods, results obtained at any point', 'The tests average over fixed files only and never interleave results with frames.',
  [AN], [('image counter', AN)])
p('C10', 'Non-finite pixels are refused and leave no trace',
  'An image is accepted exactly when every pixel is a finite number; otherwise the call reports an invalid-image error and later results are as if it had not been made. A finite image reaches the transform unchanged, and the caller\'s pixels are never modified.',
  ['inputs', 'histories'], 'every bit pattern of every pixel, before or after other frames', 'Tests try one NaN and one infinity at most; any position and any bit pattern matters.',
  [AN], [('finiteness scan', AN)])
p('C11', 'Analysis never accesses memory out of bounds or leaks',
  'For every image size from 1x1, every range up to the largest representable, every threshold, filter value and number of frames, analysing and obtaining results never reads or writes outside its buffers, never uses released or uninitialised memory, never overflows an index, and releases everything.',
  ['inputs', 'configurations'], 'all sizes up to the bound, all ranges of the machine word, filters 0, 1 and 31, thresholds 0 and 0.5', 'A sanitizer run covers only the sizes and ranges a test uses; huge ranges overflow silently.',
  [AN, ME, 'lib/transform/fftw.c'], [('range guard', AN)])
p('C12', 'Image size limits are enforced before any buffer is made',
  'An empty image is reported invalid; an image with more pixels than the configured limit, or too large to address, is reported too big; anything else is accepted or fails for want of memory with buffers requested at their full size. Nothing stays allocated after a refusal.',
  ['inputs', 'configurations'], 'every pair of 64-bit dimensions with one from a list of boundary values, five pixel limits, both transform back ends', 'Tests cannot try every product that overflows, nor rebuild with other limits.',
  [AN, 'lib/resdet_internal.h', 'lib/transform/fftw.c', 'lib/transform/kiss_fft.c'], [('dimension check', 'lib/resdet_internal.h'), ('plan creation', 'lib/transform')])
p('C13', 'Running out of memory is reported, leaks nothing, and can be retried',
  'Wherever an allocation or the planning of the transform fails, the call reports it, returns no partial result and releases what it had taken. Repeating the failed call once memory is available gives the results an undisturbed run gives, and no failure is silently ignored.',
  ['fault_sequences', 'histories'], 'every placement of up to three failing allocations or plans over creation, two frames and results, all methods; both back ends', 'Tests never make an allocation fail.',
  [AN, 'lib/transform/fftw.c', 'lib/transform/kiss_fft.c', 'lib/resdetect.c'], [('error paths', AN)])
p('C14', 'Output parameters are always defined and agree with the error',
  'Each of the four output parameters may be omitted, but a list without its count is refused; every one given is always written. On any error lists are NULL and counts zero; a missing image or analysis, an absence of frames and an invalid image each give their documented error.',
  ['inputs', 'histories'], 'every subset of output parameters, zero to two frames, valid and invalid arguments', 'The tests pass all or a few combinations; only some errors are tried.',
  [AN, 'lib/resdetect.c'], [('zeroing of outputs', AN), ('zeroing of outputs', 'lib/resdetect.c')])
p('C15', 'Parameter setters accept exactly the documented values',
  'The range setter accepts everything but zero, the threshold setter exactly the numbers from 0 to 1, the filter setter exactly 0 to 31; anything else, or a missing parameter object, is refused with the parameter error. A refused value changes nothing, and the settings are independent of each other and of the order they are made in.',
  ['inputs', 'histories'], 'every 64-bit range, every bit pattern of a threshold, every filter byte, with and without earlier settings', 'The tests try a few values around the limits; NaN, negative zero and the interplay of settings are not settled by them.',
  [AN], [('setters', AN)])
p('C16', 'The compression filter only removes candidates, by position alone',
  'The filter adds no candidate and alters no confidence; which candidates it removes depends on their position and its value alone, at even intervals, independently of the threshold and the image. Value 0 removes nothing, and a higher value never leaves more results.',
  ['inputs', 'configurations'], 'all 32 filter values, every threshold, free coefficients, all methods, both dimensions', 'The tests try one value on one image.',
  [AN], [('candidate stride', AN)])
p('C17', 'Names, lists and error texts are consistent',
  'A method is found exactly by its listed name, and no name gives the default, which is listed first. There is an error text for exactly the known and the system error codes, empty only for success and different for each error.',
  ['inputs'], 'every error code (above INT_MIN), every name up to six bytes', 'Tests try the listed names and a few codes.',
  ['lib/util.c', ME], [('lookup', ME), ('error table', 'lib/util.c')])
p('C18', 'Parameters are copied, and their absence means the defaults',
  'An analysis copies its parameters when created: changing or releasing them afterwards has no effect. Absent parameters mean the defaults, an unset threshold means the default of the method, and an absent method means the default method.',
  ['inputs', 'histories'], 'all methods, sizes around the default range, later changes of every setting', 'Tests release parameters only at the end and rarely change them after creation.',
  [AN], [('resdet_create_analysis', AN)])
RI = 'lib/image.c'
p('C20', 'PGM files decode to sample over maximum',
  'Every valid 8-bit binary graymap, whatever whitespace and comments its header has, reads as one frame of the stated size whose pixels are the samples over the maximum value, row by row, and then ends without an error.',
  ['inputs', 'configurations'], 'header layouts, every maximum 1..255, every sample, sizes up to 3x3, every way of opening', 'One or two sample files are tested.',
  ['lib/image/pgm.c', RI], [('header parser', 'lib/image/pgm.c')])
p('C21', 'PFM files decode exactly, frame after frame',
  'A float map reads top row first from its bottom-up rows, in the byte order the sign of its scale says: gray samples bit for bit and colour as the mean of the components. Further maps of the same size in the file are further frames, colour or gray, in either byte order.',
  ['inputs', 'configurations'], 'every sample bit pattern, header variants, up to three frames of up to 3x3, every mix of formats', 'One or two sample files are tested, none with mixed formats.',
  ['lib/image/pfm.c', RI], [('frame reader', 'lib/image/pfm.c')])
p('C22', 'Y4M streams decode the luma plane of every frame',
  'A yuv4mpeg stream reads, for every frame, the luma samples scaled so that the largest value of the bit depth is 1, whatever the chroma layout, bit depth, order of header tags and frame parameters, and ends without an error after the last frame.',
  ['inputs', 'configurations'], '21 chroma layouts and depths, odd sizes, every luma sample, tag orders, zero to two frames', 'One or two sample files are tested; odd sizes and rare layouts are not.',
  ['lib/image/y4m.c', RI], [('header parser', 'lib/image/y4m.c'), ('chroma skip', 'lib/image/y4m.c')])
p('C23', 'Seeking by n frames is reading and discarding n frames',
  'Seeking by any number of frames succeeds exactly when that many are left, and leaves the image as if they had been read and discarded: the following reads deliver the same pixels. Passing the end is reported by the result without an error, and leaves nothing to read. Progress is reported once for each frame passed, numbered from 1, with the caller\'s context. Any mixture of seeks and reads is allowed, whether or not the input can be repositioned.',
  ['inputs', 'histories'], 'every 64-bit offset, sequences of up to three seeks with reads between them, PGM, PFM with frames of both kinds, Y4M layouts; seekable or not', 'One test seeks once in one file; the paths for pipes, mixed formats, zero and huge offsets are not taken.',
  ['lib/image/pgm.c', 'lib/image/pfm.c', 'lib/image/y4m.c', RI], [('seek_frame of each reader', 'lib/image')])
p('C24', 'Damaged input is refused with an error and never misread',
  'A file whose header is cut short, has a wrong signature, a missing, zero or unaddressable size, or an unsupported depth or layout is refused, with no size, buffer or open file left behind. Data that ends or becomes unreadable inside the pixels of a frame is an error, not the end, and frames are only delivered complete. Whatever the bytes, reading stays within its buffers, ends, and releases everything.',
  ['inputs', 'fault_sequences'], 'valid files cut after or unreadable from every byte; every value of every header byte; boundary sizes; arbitrary bytes after several prefixes', 'A few broken files cannot stand for every truncation point and byte value.',
  ['lib/image/pgm.c', 'lib/image/pfm.c', 'lib/image/y4m.c', RI], [('header parsers', 'lib/image'), ('dimension check', RI)])
p('C25', 'Opening an image reports every failure and leaks nothing',
  'Opening with a missing name, reader name, width or height is a parameter error; an unknown type or reader is unsupported; a missing file gives the system error; a failed allocation is out of memory. On any failure there is no image, the size is zero and the buffer NULL; on success the buffer, if asked for, holds one frame. Error and buffer arguments are optional, reading or seeking without an image is a parameter error, and closing releases everything.',
  ['inputs', 'fault_sequences'], 'every subset of arguments, three formats, file present, missing or invalid, up to two injected failures', 'Tests cover a few argument errors and no failed allocation.',
  [RI], [('resdet_open_image', RI), ('open_image', RI)])
p('C26', 'The reader is chosen by extension, type or name, in any case',
  'A file is opened by the first built-in reader supporting its type: the given extension or known MIME type, else the text after the last dot of its name, compared without regard to case. A reader can be chosen by its listed name in any case. Where none applies the file is unsupported. In every build configuration the listed names are those of the readers built in, in order.',
  ['inputs', 'configurations'], '11 build configurations, 11 extensions, MIME types and names in every mixture of case', 'Tests run in one build configuration with lower-case extensions.',
  [RI, 'lib/image_readers.c'], [('reader tables', 'lib/image_readers.c'), ('selection', RI)])
p('C30', 'The methods measure the two-dimensional DCT-II of the image',
  'Each image is transformed exactly once, and what the methods measure is the two-dimensional unnormalised DCT-II of the whole image, to within rounding of single precision, whatever its width and height and however many images came before it. With FFTW it is the output of one such plan of the image\'s size given exactly the image; with KISS FFT every coefficient is that of the definition, and the transform stays inside its buffers.',
  ['inputs', 'configurations'], 'every image in the box [-1,1]^(w*h): all lengths from 3 to 40 and some to 128 (360 thoroughly), 13 two-dimensional sizes, consecutive images, both back ends', 'The tests run natural images at a few sizes, and detection survives a transform wrong for some length, frequency or line.',
  ['lib/transform/fftw.c', 'lib/transform/kiss_fft.c', 'lib/kissfft/kiss_fft.c', 'lib/kissfft/kiss_fftr.c', AN], [('DCT by mirrored real FFT', 'lib/transform/kiss_fft.c'), ('plan creation', 'lib/transform/fftw.c'), ('mixed-radix FFT', 'lib/kissfft/kiss_fft.c')])
XT = 'Tests read one or two sample files; formats, failures inside the library and the cleaning up after them are not tried.'
p('C27', 'PNG and JPEG files read as gray samples over their maximum',
  'Through libpng and libjpeg, every file these libraries can decode reads as one frame of the stated size with each pixel in place: the sample, or the mean of the colour components, over its maximum, whatever the colour type, bit depth, transparency or interlacing. Files that are missing, not of the format, or fail to decode are refused with an error and no frame. Seeking, the end, and closing behave as for every reader, and everything is released.',
  ['inputs', 'configurations', 'fault_sequences'], 'all PNG colour types and depths, interlaced or not, gray and colour JPEG, every sample; each library call or allocation failing; any 64-bit seek', XT,
  ['lib/image/libpng.c', 'lib/image/libjpeg.c', RI], [('PNG reader', 'lib/image/libpng.c'), ('JPEG reader', 'lib/image/libjpeg.c')])
p('C35', 'Videos through FFmpeg read as every frame of the video stream',
  'Through FFmpeg every frame of the best video stream is delivered once, in order, as gray floats with each pixel in place, however packets of other streams are interleaved and however the decoder delays frames; then the sequence ends without an error. Frames of another size and failures of decoding or scaling are errors, passed on as the system error where they are one. Seeking by n is reading n. Everything is released.',
  ['inputs', 'histories', 'fault_sequences'], 'packet sequences of two streams, decoder delays, every sample, each FFmpeg call failing in four ways, any 64-bit seek', XT,
  ['lib/image/ffmpeg.c', RI], [('decode loop', 'lib/image/ffmpeg.c'), ('error mapping', 'lib/image/ffmpeg.c')])
p('C36', 'Files through MagickWand read as every image of the file',
  'Through MagickWand every image of the file is delivered once, in order, as the intensity of its pixels, and then the sequence ends and stays at its end. A file that cannot be read is refused with the system error, lack of memory, or an invalid or unsupported image; a failed export is an error. Seeking by n is reading n. Everything is released.',
  ['inputs', 'histories', 'fault_sequences'], 'up to three images, every sample, eight kinds of exception, failing export or allocation, any 64-bit seek', XT,
  ['lib/image/magickwand.c', RI], [('image iteration', 'lib/image/magickwand.c'), ('exception mapping', 'lib/image/magickwand.c')])
p('C28', 'Reading a whole file gives the frames reading one by one gives',
  'Reading a file in one call gives one buffer holding exactly the frames that opening it and reading frame by frame gives, with their number and size. When that meets an error, the call returns the same error with no images and leaves nothing allocated, also when memory runs out.',
  ['inputs', 'fault_sequences'], 'up to three frames of three formats, every sample, complete, cut, with trailing bytes or missing, one failed allocation anywhere', 'Tests read single complete frames and never run out of memory.',
  [RI], [('resdet_read_image', RI)])
p('C29', 'One-call detection gives what the step-by-step calls give',
  'Detection on images in memory or on a file in one call returns exactly the error, counts and lists that creating an analysis, analysing each frame and obtaining results gives, for any method and parameters and any choice of outputs. The images are not modified and the file is closed.',
  ['inputs', 'configurations'], 'all methods, with and without parameters, up to three frames, arbitrary bit patterns in some pixels, file complete, damaged or missing', 'Tests compare against fixed results for single images.',
  ['lib/resdetect.c'], [('resdetect', 'lib/resdetect.c'), ('resdetect_file', 'lib/resdetect.c')])
SR = 'src/resdet.c'
p('C32', 'The tool prints exactly the results, and fails exactly on failure',
  'resdet prints, in the format of each verbosity level, every detected size with its confidence in the library\'s order, or "not upsampled", and exits 0; at verbosity 0 it prints nothing and exits 0 exactly when the image is upscaled. Whenever opening, seeking, reading, analysing or obtaining results fails, or there is no frame, it exits nonzero, prints no result and says why.',
  ['inputs', 'configurations', 'fault_sequences'], 'every verbosity, lists of up to three sizes, every error code of each library call, and whole runs over real files with free pixels',
  'The tests compare the tool\'s output for a few images; failures after some frames, and lists of differing lengths, are not tried.',
  [SR], [('output and error handling', SR)])
p('C33', 'The tool analyses exactly the frames asked for',
  'With an offset o and a limit n the tool analyses frames o+1 to o+n of the input, or as many of those as exist, each once and in order, and reports the results of those; a limit of 0 is refused, no frame left is a failure. Without the options all frames are analysed. Progress output changes none of this and goes only to the error stream.',
  ['inputs', 'configurations'], 'zero to four frames, every offset and limit of up to two digits (three thoroughly) and some beyond 32 and 64 bits',
  'The tests run one offset and one limit on one file.', [SR], [('frame loop', SR)])
p('C34', 'The tool passes each option on faithfully and refuses invalid ones',
  'Method, MIME type, reader, range, threshold (in percent) and filter given as options reach the library with exactly the value given, and omitted ones with their defaults; the filter "auto" depends on the file name extension. Unknown names, values out of range, malformed numbers, missing input or conflicting options are refused with a nonzero status before any file is opened. Help, version and list of readers name what the library offers.',
  ['inputs', 'configurations'], 'each option and pair of options, valid and invalid values, arbitrary digits, twelve file names',
  'The tests try a few options one at a time, with valid values mostly.', [SR], [('option parsing', SR)])
p('C45', 'Analyses are independent of each other',
  'Two analyses in the same process, of different methods and images, interleaved and released in any order, give the results each gives alone.',
  ['inputs', 'histories'], 'all coefficients of both, interleaved creation, analysis, results and release', 'Tests run one analysis at a time.',
  [AN, ME], [('no shared state', AN)])

p('C46', 'Concurrent calls on different analyses and images do not interfere',
  'The library\'s routines are safe to call from several threads on different analyses, images and buffers, in every schedule and without locks of the caller\'s: no call writes memory that another such call uses. Methods, parameters and images given to several analyses at once are only read, and the library keeps no state of its own outside the objects a caller holds.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of calls on distinct objects (by the absence of any shared write in any single call), all methods, readers, transforms, inputs and failures explored by the other checks',
  'The tests run on one thread, where shared state of this kind is invisible or happens to be refreshed.',
  [AN, ME, 'lib/resdet.c', 'lib/image.c', 'lib/util.c'], [('no shared state', AN), ('constant tables', ME)])

PYF = 'bindings/python/resdet.py'
PYL = 'bindings/python/libresdet_api.py'
p('C40', 'Python: detection calls pass everything on and return it faithfully',
  'From Python, detection on a file or on an image given as list, array, pointer or ImageBuffer, and the step-by-step Analysis, reach the library with exactly the pixels, sizes, method and parameters given, and return exactly its lists of sizes and confidences, each once and in order. Any parameter the library would refuse, or that does not fit its type, is refused and never dropped or wrapped. Each error of the library raises its own exception with its text. Methods, thresholds, readers, version and default range are those of the library. Lists, parameters and analyses are released exactly once.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'every image form, any pixels and sizes, any integers or floats as parameters, every method, lists of up to three sizes, every error of each library call, memory running out, analyses used and released in any order',
  'The tests make a few calls with valid arguments on one image and compare sizes; they do not see which values cross the language border, leaks, or errors.',
  [PYF, PYL], [('detection functions', PYF), ('Analysis', PYF), ('error mapping', PYF), ('parameter conversion', PYF), ('declared signatures', PYL)])
p('C41', 'Python: image buffers and readers are memory-safe and faithful',
  'From Python, an ImageBuffer holds exactly the images read or room for those asked for; indexing gives the pixel of that frame, row and column and raises IndexError for anything outside, and never touches other memory. Opening, reading and seeking pass file, type or reader, buffer and offset on, report progress, frames, end and errors as the library does. Buffers and images may be closed early, twice or not at all: nothing is used after release, released twice or leaked, and a buffer reused for another image holds that one.',
  ['inputs', 'histories', 'fault_sequences'], 'images of any size, any integer indices, any 64-bit offset, all orders of reading, seeking and closing, every error of each library call, memory running out',
  'The tests read one small file in order and never index out of range, close early, or reuse a buffer.',
  [PYF, PYL], [('ImageBuffer', PYF), ('Image', PYF), ('read_image', PYF), ('declared signatures', PYL)])

PYN, PYP = 'bindings/python/resdet_numpy.py', 'bindings/python/resdet_PIL.py'
p('C42', 'Python: NumPy arrays and Pillow images are analysed as what they show',
  'Detection and analysis of a NumPy array (rows by columns, or frames by rows by columns) or Pillow image, of any element type, memory layout or mode, give the library exactly its pixels as C floats, row by row, with its width, height and frames, all parameters and the method; the caller\'s array is not changed and nothing beyond it is read. A Pillow image is analysed from its current frame to its last, each once, frames of differing sizes are refused, and it is left where it was. Frames read as arrays or Pillow images have the size and pixels of the frame and stay valid after others are read and all is released.',
  ['inputs', 'histories', 'fault_sequences'], 'any element values, five element types, five memory layouts, two and three axes, Pillow modes, frames and positions, every error of the library',
  'The tests use one symmetric image of two by two pixels, for which swapped axes, wrong types and scrambled rows give the same lists.',
  [PYN, PYP, PYF], [('array conversion', PYN), ('frame loop', PYP), ('frames as arrays', PYN)])


def na(id, title, statement, over, text, tests, files, mech, reason):
    p(id, title, statement, over, text, tests, files, mech)
    NA.append((id, reason))


JSF = 'bindings/emscripten/resdet.mts'
na('C43', 'The JavaScript binding passes everything on and returns it faithfully',
   'From JavaScript, detection on files and images reaches the library with exactly the pixels, sizes, method and parameters given and returns exactly its lists; each error raises; everything is released.',
   ['inputs', 'configurations', 'fault_sequences'], 'all images, parameters and errors', 'The binding\'s tests need an emscripten build and do not run here.',
   [JSF], [('detection functions', JSF)],
   'the binding runs on the library compiled to WebAssembly by emscripten, which is not installed here, so it can be neither built nor a counterexample replayed, and there is no symbolic executor for JavaScript')


def generate():
    import registry
    nas = {i for i, _ in NA}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            q = {k: v for k, v in q.items() if k != 'note'}
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    checks = []
    for q in P:
        if q['id'] in nas:
            continue
        assert q['id'] in registry.CHECKS, q['id']
        checks.append({'property': q['id'], 'quick_cmd': 'python3 check.py %s quick' % q['id'], 'thorough_cmd': 'python3 check.py %s thorough' % q['id'],
                       'evidence_file': 'evidence/%s.json' % q['id'], 'technique': getattr(registry, 'TECHS', {}).get(q['id'], TECH), 'level': 'other',
                       'level_note': registry.note(q['id']) if hasattr(registry, 'note') else 'exhaustive symbolic execution within stated bounds'})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(V, 'lsym'))
    generate()
