import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
TP='thermal_parser/src/'; TR='thermal_renderer/src/'
prop('C01','No byte stream can crash the parser or a renderer',
 "For every sequence of bytes - well-formed, truncated, hostile or random - parsing it, rendering it to an image and rendering it to HTML all return normally: no panic, no arithmetic overflow, no out-of-range access and no endless loop, as long as the images and the paper the job asks for fit in memory. The same holds for compiling any text as .thermal source and for converting any parsed job back to .thermal.",
 ['inputs','histories'],"all byte strings (including every truncation point of a valid job, every parameter value 0..255 of every command, zero/huge declared lengths, and command histories that push positions, sizes and modes to their extremes) and all UTF-8 strings as .thermal source",
 "The tests feed about thirty hand-made sample files, all valid; nothing truncated, mutated or with boundary parameters is ever parsed or rendered, and release builds hide the arithmetic overflows.",
 [TP+'parser.rs',TP+'commands',TP+'subcommands',TP+'graphics.rs',TP+'text.rs',TP+'thermal_file.rs',TP+'context.rs',TR+'renderer.rs',TR+'image_renderer',TR+'html_renderer'],
 [('defaulted parameter reads and saturating arithmetic in command handlers',TP+'commands'),('cropping before pixels are stored',TR+'image_renderer/thermal_image.rs')],
 ['return of parse_esc_pos, ImageRenderer::render, HtmlRenderer::render, parse_str, cmds_to_thermal; panics and overflow checks'])
prop('C02','Command boundaries follow the declared parameter lengths',
 "The parser splits a byte stream into commands exactly where the ESC/POS formats say: each recognised command takes its own opcode and precisely the parameter and data bytes its format (fixed, NUL-terminated or length-prefixed) calls for, payload bytes that look like opcodes stay payload, and the byte after it starts the next command or text run; an unknown command reaches up to the next recognised command. Tab stops are sent in this project's form, a tab length and an index. This holds wherever the command stands, first, last or between any others.",
 ['inputs','histories'],"all sequences of recognised commands with arbitrary parameters and payloads interleaved with text, including payloads that contain opcodes and commands that end the stream",
 "Tests only assert a few short hand-written sequences; framing of every command next to every other, arbitrary payloads and end-of-stream positions are never sampled.",
 [TP+'parser.rs',TP+'command.rs',TP+'command_sets/esc_pos.rs',TP+'commands',TP+'subcommands/mod.rs'],
 [('prefix matching and per-command byte acceptance',TP+'parser.rs'),('length-prefixed subcommand capacity',TP+'subcommands/mod.rs'),('barcode encodings A and B',TP+'commands/barcode.rs')],
 ['the list of commands returned by parse_esc_pos: opcode bytes and data bytes of each'])
prop('C03','Parsing loses, invents and reorders no byte',
 "For every byte stream, the command bytes and data bytes reported by the parsed commands, concatenated in order, are exactly the stream that was parsed. This includes unknown commands, unsupported sub-functions, interrupted command prefixes and a stream that stops in the middle of a command.",
 ['inputs'],"all byte strings, cut at any point",
 "No test ever reassembles a parsed stream; truncated and unknown sequences are not tested at all.",
 [TP+'parser.rs',TP+'command.rs',TP+'subcommands/mod.rs',TP+'commands/barcode.rs',TP+'commands/bit_image.rs',TP+'commands/raster_bit_image.rs',TP+'commands/unknown.rs'],
 [('every handler can give back its raw command and data bytes',TP+'command.rs'),('unknown and default commands collect unmatched bytes',TP+'parser.rs')],
 ['concatenated get_command_bytes of the parsed commands versus the input'])
prop('C04','.thermal source compiles to exactly the bytes it spells',
 "For every text, compiling .thermal source yields, token by token in order, the named control byte, the hexadecimal or decimal byte value, the unescaped bytes of a quoted string, or the bytes of any other bare word, and nothing else; blank lines and lines that begin with the comment marker contribute no bytes. Spacing, line ends and how tokens are split over lines never change the result.",
 ['inputs'],"all UTF-8 source texts, including escapes, unterminated quotes, multi-byte characters, adjacent tokens and quotes, and numbers at and beyond the byte range",
 "Tests compile a few literal snippets; escape combinations, non-ASCII text, adjacency and malformed tokens are unbounded and unsampled.",
 [TP+'thermal_file.rs',TP+'constants.rs'],[('tokenizer and token-to-byte conversion',TP+'thermal_file.rs')],['bytes returned by parse_str'])
prop('C05','Converting a job to .thermal and back gives the same bytes',
 "For every byte stream, converting its parsed commands to .thermal text and compiling that text again yields the original bytes. Comments and layout the converter adds never contribute bytes.",
 ['inputs'],"all byte strings, including text containing quotes, backslashes, line breaks, comment markers, control bytes and bytes that are not valid UTF-8",
 "Tests convert sample binaries but never compile the result back, and the samples hold only plain text.",
 [TP+'thermal_file.rs',TP+'command.rs',TP+'commands/text.rs',TP+'commands/unknown.rs'],[('command to text conversion with escaping',TP+'thermal_file.rs')],['parse_str(cmds_to_thermal(parse_esc_pos(bytes))) versus bytes'])
prop('C06','Text bytes decode by the selected code table and national set',
 "Each text byte is shown as the character that the currently selected code table and international character set assign to it, for every supported table, with the replacements of the national set taking precedence and unsupported selections falling back to the default table or set. Selecting table 255 decodes text as UTF-8, replacing invalid sequences, and any later selection takes effect exactly for the text after it.",
 ['inputs','histories'],"all 256 table numbers x 256 national-set numbers x 256 byte values, and all interleavings of selections with text",
 "Two sample files exercise a few tables by eye; no test asserts a single decoded character.",
 [TP+'decoder',TP+'commands/set_code_table.rs',TP+'commands/set_international_charset.rs',TP+'commands/text.rs'],[('table lookup with national replacements',TP+'decoder/mod.rs'),('decoder rebuilt on every selection',TP+'context.rs')],['text of the spans the renderer hands to an output renderer'])
prop('C07','Every printed character has the style the commands before it set',
 "Each printed character carries exactly the font, width and height scale, bold, italic, underline, strike, inverted and upside-down state and the text and background colours determined by the style commands that precede it in the job, each command changing only the attributes it documents. A style change takes effect for the next character, also in the middle of a line or word, and never for characters already sent.",
 ['histories'],"all histories of style commands with all parameter values, interleaved with text, line ends and other commands",
 "Sample files show a handful of style combinations and are not asserted; combined commands that set several attributes at once interact with single-attribute ones in ways no test covers.",
 [TP+'context.rs',TP+'text.rs',TP+'commands',TR+'renderer.rs'],[('style context applied per command',TP+'commands'),('style captured when text is received',TP+'text.rs')],['spans handed to the output renderer'])
prop('C08','All text is printed once, in order, inside the printable width',
 "Every character of the text in a job is handed to the output exactly once and in order, apart from the line-end, carriage-return and tab controls themselves. Every printed line fits the printable width and no printed character lies outside it or overlaps another of its line; a line is broken only where the next word does not fit, and a word is split only when it is wider than a whole line, where a word takes in the space that ends it and also ends where the style changes.",
 ['inputs','histories'],"all texts (word lengths, scales, fonts, justification, tabs, start columns) for which a single character fits the printable width",
 "One sample file shows long words at normal size; the combination of scaled characters, mixed fonts, tabs, start positions and justification is not asserted anywhere.",
 [TR+'renderer.rs',TP+'text.rs'],[('word wrapping and splitting of long words',TR+'renderer.rs'),('splitting of a span',TP+'text.rs')],['positions and texts of spans handed to the output renderer'])
prop('C09','Lines, feeds, tabs and positions put output where the commands say',
 "In standard mode every piece of output starts at the position the preceding commands determine: a line end advances by the larger of the line spacing and the tallest character on the line, feeds and cuts advance by exactly the requested amount, images, barcodes and QR codes follow the cursor and then advance it by their height, tabs and absolute positions move to their column, and left, centre and right justification place each line accordingly. The finished paper is never shorter than the distance fed.",
 ['histories'],"all histories of text, line ends, line-spacing, feed, cut, tab, position, motion-unit, justification and image/barcode commands with all parameter values",
 "Rendered samples are written to disk and never compared; cumulative positions over long histories are not checked.",
 [TP+'context.rs',TP+'commands',TR+'renderer.rs'],[('cursor kept in the rendering context',TP+'context.rs'),('device commands that advance it',TR+'renderer.rs')],['positions handed to the output renderer, height of the final image'],
 [('cursor','current x and y in dots',TP+'context.rs')])
prop('C10','Bit images reproduce every dot at the requested scale',
 "A bit image sent in column or raster format appears as exactly the dots its data encodes: width, height, orientation, bit order and padding as the format defines, each dot enlarged by the selected horizontal and vertical scale, set dots inked in the print colour and clear dots leaving the paper. An image whose data is incomplete is reported as an error and nothing of it is drawn.",
 ['inputs'],"all dimensions (including widths and heights not divisible by eight, one and zero), densities, scales and bit patterns",
 "Samples contain a few fixed pictures whose pixels are never compared to the source data.",
 [TP+'graphics.rs',TP+'commands/bit_image.rs',TP+'commands/raster_bit_image.rs',TR+'image_renderer'],[('bit unpacking, column transposition and scaling',TP+'graphics.rs')],['image handed to the output renderer and pixels of the final image'])
prop('C11','Stored graphics act as separate keyed stores and a print buffer',
 "A graphic defined under a two-character key prints with exactly the dots and colours it was defined with until it is redefined or deleted, and the permanent and the temporary store never affect each other. Buffered graphics are printed together, layered in the order they were stored, and printing empties the buffer; printing an undefined key draws nothing.",
 ['histories'],"all histories of define, redefine, delete, delete-all and print operations over both stores and the print buffer, with all keys, colours, scales, formats and sizes",
 "One sample defines and prints a graphic; no test exercises redefinition, deletion, two stores, multi-colour layers or odd sizes.",
 [TP+'subcommands/gs_graphics',TP+'graphics.rs',TP+'context.rs'],[('graphics keyed by storage and key codes',TP+'graphics.rs'),('buffer layers merged on print',TP+'subcommands/gs_graphics/print_buffer_graphics.rs')],['images handed to the output renderer'],
 [('stored graphics','keyed images of both stores',TP+'context.rs'),('buffer graphics','pending layers',TP+'context.rs')])
prop('C12','Every barcode drawn decodes back to the data that was sent',
 "For each supported symbology, valid data (the symbology's own character set; a missing check digit is added, of UPC-A and EAN-13 it is always computed, and a wrong one of EAN-8 and UPC-E is an error; ITF of odd length gets one) is drawn as a symbol that a standard decoder reads back as that data, with correct check digits, module width, bar height and the human-readable text the job asked for and where it asked for it. Data the symbology cannot carry is reported as an error and draws no symbol.",
 ['inputs','histories'],"all data strings of all lengths for UPC-A, UPC-E, EAN-13, EAN-8, CODE39, ITF, CODABAR, CODE93 and CODE128, with all settings of width, height and text position",
 "Sample barcodes are drawn but never decoded; only UPC-E compression has a few fixed vectors.",
 [TP+'commands/barcode.rs',TP+'utils/barcodes/upce.rs',TR+'renderer.rs'],[('data validation and encoding per symbology',TP+'commands/barcode.rs'),('UPC-E compression',TP+'utils/barcodes/upce.rs'),('module drawing',TR+'renderer.rs')],['rectangles and text handed to the output renderer, decoded by an independent decoder'])
prop('C13','Every QR code drawn decodes to the stored data',
 "Storing data and printing it draws a valid QR symbol that decodes to exactly the stored data bytes, with the error-correction level and module size in force when it was stored. Data that cannot be encoded is reported as an error when printed, and a symbol stored earlier is never printed in its place.",
 ['inputs','histories'],"all data of all encodable lengths, all levels, models and sizes, and all histories of set, store and print",
 "Sample files draw a few QR codes; none is decoded and the error-correction level is never read back.",
 [TP+'subcommands/gs_code2d',TR+'renderer.rs'],[('symbol encoded at store time',TP+'subcommands/gs_code2d/qr_store.rs'),('module drawing',TR+'renderer.rs')],['rectangles handed to the output renderer, decoded by an independent decoder'],
 [('symbol storage','last stored symbol',TP+'context.rs')])
prop('C14','Page mode places, rotates and prints the page as composed',
 "In page mode, content drawn with any print direction appears at the position the area, direction and position commands define, rotated accordingly, and printing the page transfers the whole page to the paper at the current position and advances by its height. Nothing reaches the paper before the page is printed, leaving page mode without printing discards it, areas are clipped to the printable width, the page size grows to cover every area set and no content is lost or moved when areas or directions change.",
 ['histories'],"all histories of page-mode enter, area, direction, position, content, print, print-and-leave and leave commands",
 "Two samples draw fixed pages that are never compared; sequences of directions and areas, repeated prints and discards are not tested.",
 [TP+'context.rs',TP+'commands/page_mode_print_area.rs',TP+'commands/page_mode_print_direction.rs',TR+'renderer.rs',TR+'image_renderer'],[('logical area translated to the rotated page',TP+'context.rs'),('page image rotated with the direction',TR+'image_renderer/mod.rs')],['final image pixels'],
 [('page mode context','area, direction and cursor of the page',TP+'context.rs')])
prop('C15','Initialize restores the power-on settings',
 "After the initialize command, whatever came before, every later command prints exactly as it would at the start of a job, merely further down the paper: style, decoding, spacing, justification, tabs, units, barcode and QR settings and page mode are back to their defaults, and the buffer and temporary graphics are gone. What was already printed is kept and never overprinted.",
 ['histories'],"all command histories before and after an initialize command",
 "Samples start with initialize but no test compares output after it with a fresh job.",
 [TP+'context.rs',TP+'commands/initialize.rs',TR+'renderer.rs'],[('context restored from a pristine copy',TP+'context.rs')],['events and image of prefix + ESC @ + suffix versus ESC @ + suffix'])
prop('C16','The image shows exactly what was drawn, where it was drawn',
 "The rendered image has three bytes per pixel, the paper's width and a height that covers everything printed and fed; every character, bar, dot and line handed to the output is inked at its position and every other pixel is blank paper. Drawing something never erases or alters ink already on the paper elsewhere, overlapping ink stays ink, and content beyond the paper is cut off at the edge without shifting or affecting the rest.",
 ['inputs','histories'],"all sequences of drawing operations with all positions, sizes, colours and clipping situations",
 "Images are written to disk but not compared with anything.",
 [TR+'image_renderer/mod.rs',TR+'image_renderer/thermal_image.rs',TP+'graphics.rs'],[('pixel placement, cropping and blending',TR+'image_renderer/thermal_image.rs')],['pixels of ReceiptImage versus an independent compositor fed with the same drawing operations'])
prop('C17','The HTML receipt carries the same content and stays well-formed',
 "For every job the HTML output is well-formed, contains the printed text of the job, character for character and in order, as text that is never interpreted as markup or template syntax, and shows every image, barcode and QR code at the same place and with the same dots as the layout. Styles appear as the matching classes.",
 ['inputs','histories'],"all jobs, including text containing markup characters and template placeholders",
 "HTML files are written to disk but never parsed; no sample contains markup characters.",
 [TR+'html_renderer/mod.rs',TR+'html_renderer/thermal_html.rs','thermal_renderer/resources/templates/thermal.html'],[('span, image and graphics conversion',TR+'html_renderer/thermal_html.rs'),('template filling',TR+'html_renderer/mod.rs')],['ReceiptHtml content, parsed by an independent HTML reader'])
prop('C18','Every command that cannot be carried out is reported',
 "A job made only of supported commands with valid data that fits the paper renders with an empty error list. Each unknown command, and each picture, barcode or QR code that cannot be drawn because its data is invalid or incomplete, adds exactly one error in the order they occur (an unknown command reaches up to the next recognised one; buffered graphics count when they are printed, and a print with a faulty layer draws nothing), and everything else in the job is still printed as if the faulty command were absent.",
 ['inputs','histories'],"all jobs with any number of faults at any position",
 "Tests assert that samples render without errors, never that faults are reported or that the rest survives.",
 [TR+'renderer.rs',TP+'commands/barcode.rs',TP+'graphics.rs',TP+'parser.rs'],[('errors collected while commands are processed',TR+'renderer.rs')],['RenderOutput.errors and events of the job with and without the fault'])
prop('C19','Rendering is repeatable and unaffected by observation',
 "The same bytes always give the same commands, image, HTML and errors, also when a parser or renderer is used again after any other job or several jobs render concurrently. Turning on informational logging changes nothing in the output, and both renderers receive the same layout.",
 ['histories','schedules','configurations'],"all jobs, all sequences of jobs through one parser or renderer object, any number of threads and all settings of the informational debug option",
 "Each test renders one job once with one configuration.",
 [TP+'parser.rs',TR+'renderer.rs',TR+'image_renderer',TR+'html_renderer'],[('parser and renderer state reset between jobs',TP+'parser.rs')],['outputs of repeated, reused, concurrent and logged renders'])
prop('C20','Cost grows in proportion to the job and its paper',
 "The work and memory needed to parse and render a job grow at most about linearly with the size of the job, of the pages it composes and of the paper it prints: doubling a job, an image, a page or the paper length never multiplies the cost by much more than two. A short command can therefore not stall the renderer.",
 ['inputs'],"all scalable families of jobs: long text, many commands, many lines, long payloads, long feeds, many stored graphics, large pages",
 "Tests render small samples once and measure nothing.",
 [TP+'parser.rs',TP+'thermal_file.rs',TR+'renderer.rs',TR+'image_renderer/thermal_image.rs'],[('amortised growth of pixel and command buffers',TR+'image_renderer/thermal_image.rs')],['CPU time and allocated bytes at increasing sizes'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
