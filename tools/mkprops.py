import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"where":files[0]} for n in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
BUF='kolombos/byteio/segment/buffer.py'; SEG='kolombos/byteio/segment/segment.py'; BIN='kolombos/byteio/formatter/binary.py'; TXT='kolombos/byteio/formatter/text.py'; ABS='kolombos/byteio/formatter/_abstract.py'
PAR='kolombos/byteio/parser/parser.py'; PB='kolombos/byteio/parser/buffer.py'; RD='kolombos/byteio/reader.py'; CON='kolombos/console.py'; SET='kolombos/settings.py'; RUN='kolombos/runner/byteio.py'
T='kolombos/byteio/template/'
ANSI='pytermor/ansi.py'; COL='pytermor/color.py'; REN='pytermor/render.py'
p("K01","Binary mode shows every input byte exactly once, in order",
"In binary mode, with terminal formatting removed, the hexadecimal column read top to bottom is exactly the input: every byte appears once, in order, as a two-digit lowercase hexadecimal number preceded by a space, and the column is padded to the same width in every row. Every row except the last one carries exactly the requested number of bytes (at least one when the number is chosen automatically, whatever the terminal width), and the character column of a row carries exactly one character per byte of that row.",
["inputs","configurations"],"every byte string, every column count, terminal width, display mode, decode and offset option, and every split of the input into reads",
"Rows cut byte runs and multi-byte sequences at arbitrary places and a row can span many reads, so a lost, repeated or shifted byte needs a particular alignment of content, columns and read boundaries.",
[BIN,BUF,SEG,ABS,PAR,PB,CON,RUN],[("SegmentBuffer._detach / detach_bytes / attach / _format",BUF),("Segment.split",SEG),("BinaryFormatter.format",BIN),("AbstractFormatter._seg_raw_to_hex",ABS),("Parser.parse / _substitute",PAR),("Template.substitute and overrides",T)],
["SegmentBuffer._segment_chain","SegmentBuffer._active_sgrs","BinaryFormatter._offset"],["rows written to standard output in binary mode"])
p("K02","Offset labels and the final total are exact",
"In binary mode with offsets shown, the label of each row is the offset of the first byte of that row from the start of the input, and the last line is the total number of bytes shown; hexadecimal labels are written as 0x followed by at least four digits, decimal labels as a plain number. Labels of any magnitude are complete: reading the label back as a number always gives exactly that offset.",
["inputs","configurations"],"every input length, column count, read chunking and offset format, including offsets wider than the label column",
"Only offsets near label width boundaries (over a million, over a hundred million) or an uneven read history expose a wrong or cut label.",
[CON,BIN,BUF],[("Console.format_prefix / format_prefix_with_offset / format_total_size",CON),("ConsoleOutputBuffer.write_with_offset",CON),("BinaryFormatter.format",BIN),("SegmentBuffer.last_detached_data_len",BUF)],
["BinaryFormatter._offset"],["offset prefix of binary rows and the total line"])
p("K03","Text mode prints one numbered line per input line and loses nothing",
"In text mode every input line (a maximal run ending with a line feed, or the unterminated rest at the end of input) produces exactly one output line, prefixed with its number counting from 1 unless line numbers are off, in which the markers, decoded characters and details of all the bytes of that line appear in input order. Line breaks are printed even when whitespace is ignored, an unterminated last line still ends with a line break, and nothing of a line is ever moved to another line or dropped.",
["inputs","configurations"],"every byte string, read chunking, marker level, separator and display mode option",
"A dropped trailing marker or a line glued to its neighbour appears only for particular combinations of zero-length details, separators, read boundaries and the end of input.",
[TXT,BUF,T+'template_newline.py',CON,PAR],[("SegmentBuffer.detach_line / _detach",BUF),("TextFormatter.format",TXT),("NewlineTemplate._process_byte",T+'template_newline.py'),("ConsoleOutputBuffer.write_with_line_num",CON)],
["TextFormatter._line_num","SegmentBuffer._segment_chain"],["lines written to standard output in text mode"])
p("K04","Every byte string is accepted and split by the documented classes",
"Any byte string is processed without an error, and each byte is shown as belonging to exactly one class: 21-7e printable; 09-0d and 20 whitespace; 00-08, 0e-1f, 7f control; bytes from 80 up binary data unless part of a valid UTF-8 sequence; and a byte 1b together with its continuation is one escape sequence whenever it forms a complete one (CSI: 1b 5b, parameters 30-3f, intermediates 20-2f, final 40-7e; nF: 1b, one or more 20-2f, final 30-7e; Fp/Fe/Fs: 1b and one byte of 30-3f, 40-5f, 60-7e), otherwise a lone control character. Among CSI sequences those with final byte 'm' are shown as SGR (as reset when parameters are empty or a single 0), and each kind, each whitespace character and each control character with its own sign is displayed with its own marker.",
["inputs","configurations"],"all byte strings of any length and content, and all display options",
"The grammar has dozens of interacting alternatives whose order matters; samples cannot show that no byte string is left over, misattributed or crashes a template.",
[PAR,T+'registry.py',T+'template_escape.py',T+'template_escape_sgr.py',T+'template_control.py'],[("Parser.F_SEPARATOR and MGROUP_TO_TPL_MAP",PAR),("Parser._substitute / _resolve_match / _resolve_escape_seq_csi",PAR),("EscapeSequenceSGRTemplate.set_details_fmt_str",T+'template_escape_sgr.py'),("TemplateRegistry",T+'registry.py')],
None,["markers in both modes"])
p("K05","UTF-8 is recognised exactly and decoded faithfully",
"A run of bytes is shown as a UTF-8 sequence exactly when it is one well-formed UTF-8 encoded code point (no overlong forms, no surrogates, nothing above U+10FFFF), regardless of what surrounds it; every other byte from 80 up is shown as binary data. In text mode a recognised sequence is displayed as the very character it encodes, and in binary mode with decoding on as that character padded on the left with underscores to the byte length of the sequence (as one box per byte with decoding off).",
["inputs"],"all byte strings: every code point, every malformed sequence and every neighbourhood of them",
"There are over a million code points and far more malformed neighbourhoods; a shifted range bound in one alternative changes only a narrow block.",
[PAR,T+'template_utf8.py'],[("UTF-8 and binary alternatives of Parser.F_SEPARATOR",PAR),("Utf8SequenceTemplate._process",T+'template_utf8.py')],None,["displayed characters in both modes"])
p("K06","Focus and ignore options affect exactly their own class",
"Ignoring a character class replaces each byte of that class, and no other byte, by one ignored-mark (plus the line break itself for line feeds in text mode), without details or separators, in both modes; focusing a class never changes which characters and lines are displayed except for the dedicated focused sign of the space, and never affects other classes. When both are requested for one class, ignoring wins.",
["inputs","configurations"],"every byte string under every combination of the six focus and six ignore options, both modes and all marker levels",
"There are thousands of option combinations, and a mix-up between two classes shows only when one is toggled alone on input that contains the other.",
[SET,T+'template.py',T+'template_control.py',T+'template_escape.py',T+'template_newline.py',T+'template_utf8.py',T+'template_printable.py','kolombos/byteio/partial_override.py'],[("Settings.get_char_class_display_mode",SET),("Template.update_settings / _process_byte / substitute",T+'template.py'),("PartialOverride.get",'kolombos/byteio/partial_override.py'),("substitute overrides",T)],None,["markers in both modes"])
p("K07","Marker details follow the requested level",
"In text mode level 0 shows only the one-character marker of control characters and escape sequences; level 1 adds the caret-notation letter (byte value plus 64) after each generic control character and, after an SGR marker, its parameters in short form (code numbers, with 38/48;5;n shown as Fn/Bn and 38/48;2;r;g;b as F/B and six hexadecimal digits) joined by '･'; level 2 adds the two-digit hexadecimal value or the text of the sequence after its first byte. From level 1 up every escape sequence that is not ignored is enclosed in separators unless they are switched off; in binary mode the level is disregarded, and an escape sequence is its marker followed by its remaining bytes one character each.",
["inputs","configurations"],"every control character and escape sequence, in any repetition and neighbourhood, at every marker level and with every separator option",
"Details depend on level, mode, class, repetition and state left in shared templates by the previous sequence, and SGR parameter lists are unbounded.",
[T+'template_control.py',T+'template_escape.py',T+'template_escape_sgr.py',SET],[("ControlCharGenericTemplate.substitute / _fill_additional_segments",T+'template_control.py'),("EscapeSequenceTemplate.substitute / _fill_additional_segments",T+'template_escape.py'),("EscapeSequenceSGRTemplate.set_details_fmt_str / _get_brief_details_processed",T+'template_escape_sgr.py'),("Settings.effective_marker_details",SET)],
["EscapeSequenceSGRTemplate._brief_details_processed"],["markers in both modes"])
p("K08","Formatting never leaks between output rows or characters",
"After any complete output row or line has been printed the terminal is back to default formatting, so no colour or attribute leaks into following rows, prefixes or the user's prompt. Within a row every character is displayed with the formatting of its own class and marker even when a row or read boundary cuts its run, and the only terminal control the output ever contains is the program's own SGR formatting: ASCII control bytes of the input (other than line feed and tab in text mode) are never sent to the terminal.",
["inputs","configurations"],"every byte string, column count, display option, marker level, colouring option and read chunking",
"A leak needs a run cut at a row boundary, a particular style, or an input SGR reused for colouring; tests compare a few short rows.",
[BUF,SEG,T+'template_newline.py',T+'template_escape_sgr.py',ANSI],[("SegmentBuffer._detach (active SGRs) and attach",BUF),("SegmentBuffer._format",BUF),("Span closing sequence",ANSI),("EscapeSequenceSGRTemplate._get_details_opening_seq",T+'template_escape_sgr.py')],
["SegmentBuffer._active_sgrs"],["bytes written to standard output"])
p("K09","Read limits deliver an exact prefix of the input",
"Without limits the whole input is shown; with a byte limit exactly its first N bytes (all of it if shorter); with a line limit exactly the part before the N-th line feed (all of it if there are fewer); with both, the shorter of the two. The chunks handed on are consecutive, their offsets are contiguous from 0, and the end of input is signalled exactly once, last.",
["inputs","schedules","configurations"],"every input, limit, read buffer size and every pattern of short reads of the source",
"Off-by-one cuts depend on where limits fall relative to read boundaries and line feeds.",
[RD],[("Reader.read",RD),("Reader._get_chunk_size",RD)],["Reader._offset"],["reader callback arguments"])
p("K10","Output does not depend on read buffer size",
"For a fixed set of display options and a fixed number of columns or terminal width, the displayed text is the same whatever the read buffer size and however the source delivers the data: no sequence is classified differently because it was cut by a read boundary.",
["inputs","schedules"],"every byte string and every partition of it into reads",
"Each particular split must cut inside one particular kind of sequence to matter.",
[PAR,PB,RUN,BUF],[("Parser.parse (incomplete tail)",PAR),("ParserBuffer.append_raw / crop_raw",PB),("ByteIoRunner._process_chunk_buffered",RUN)],["ParserBuffer._raw_buffer"],["standard output for different buffer sizes"])
p("K11","Debug messages appear only at their level and never alter the payload",
"Without the debug option nothing but the payload is printed; with it given n times, exactly the messages of level n or lower are added, as whole lines. Turning debugging on never changes the content of payload rows and lines (only their line number or offset prefix).",
["configurations","inputs"],"every debug level combined with every input and option set",
"A message printed at a wrong level or a debug evaluation with a side effect or an error shows only for particular level, buffer states and inputs.",
[CON,SET,BUF],[("ConsoleDebugBuffer.write / flush",CON),("Console.printd",CON),("SegmentBuffer.preview",BUF),("Settings.debug_*",SET)],["ConsoleDebugBuffer._buf"],["standard output with -D..-DDDD"])
p("K12","Errors are reported, after the output so far, with exit status 1",
"If processing fails, everything already written to output buffers is printed first, the error is reported on the standard error stream as one message naming it, and the process exits with status 1; if it succeeds, the exit status is 0 and nothing is reported. The exit status never disagrees with what happened.",
["fault_sequences","configurations"],"any error raised by any stage, at any debug level",
"Faults must be injected at arbitrary stages; tests run none.",
['kolombos/app.py',CON],[("App.run / _exit",'kolombos/app.py'),("Console.on_exception / flush_buffers / error",CON),("ConsoleOutputBuffer.write / flush",CON)],["Console.buffers"],["exit status, standard error"])
p("P01","A span's closing sequence undoes exactly what its opening set",
"For any list of SGR codes that turn on known attributes or colours (including 256-colour and RGB forms with any channel values), applying the opening and then the automatically composed closing sequence leaves every attribute the opening touched at its default and leaves every other attribute of the terminal unchanged. Wrapping a text yields opening, text, closing, in this order, and an empty span adds nothing.",
["inputs"],"all lists of codes of any length and order, with any channel values, from any prior terminal state",
"Colour channel values collide with attribute codes, so a list must contain the right value in the right place to expose a wrong pairing.",
[ANSI],[("_SgrPairityRegistry.get_closing_seq / bind_*",ANSI),("Span.__init__ / wrap / init_explicit",ANSI)],["_SgrPairityRegistry._code_to_breaker_map","_SgrPairityRegistry._complex_code_def"],["Span.closing_seq, Span.wrap"])
p("P02","SGR sequences compose and assemble faithfully",
"Building a sequence from codes, names and other sequences concatenates their parameters in argument order; adding sequences concatenates parameters without changing the operands; the assembled form is ESC [ parameters joined by ';' m, where no parameters yields an empty string and the single parameter 0 yields ESC [ m. Colour constructors accept exactly channel values 0-255 and produce 38/48;5;n or 38/48;2;r;g;b, and two sequences are equal exactly when their parameters are.",
["inputs"],"all parameter lists and all combinations of argument kinds",
"Unbounded parameter lists and argument mixes; samples cover a handful.",
[ANSI],[("SequenceSGR.__init__ / assemble / __add__ / __eq__ / __hash__ / init_color_*",ANSI),("Sequence.__init__",ANSI)],None,["SequenceSGR.params, str()"])
p("P03","SGR-aware justification pads by visible width",
"Removing SGR sequences from a text deletes exactly the sequences ESC [ digits-and-semicolons m and nothing else. Left, right and centre justification return the text unchanged when its visible length (sequences removed) already reaches the width, otherwise the original text with exactly the missing number of fill characters added on the right, left, or both sides (the left side gets the odd one).",
["inputs"],"all strings with any mixture of sequences, any width and fill character",
"The visible length depends on where sequences are; samples do not cover every placement and width parity.",
['pytermor/util/stdlib_ext.py','pytermor/util/string_filter.py'],[("ljust_sgr / rjust_sgr / center_sgr",'pytermor/util/stdlib_ext.py'),("ReplaceSGR.apply / SGR_REGEXP",'pytermor/util/string_filter.py')],None,["returned strings"])
p("P04","Colour value conversions are exact",
"Splitting a 24-bit colour value into channels and joining them back is the identity in both directions, each channel lies in 0-255 and in the red-green-blue order. The hue, saturation and value computed for a colour lie within [0,360), [0,1] and [0,1], agree with the standard definition, and every grey has zero saturation.",
["inputs"],"all 16,777,216 colour values and channel triples",
"Sixteen million values against a few doctest samples.",
[COL],[("Color.hex_value_to_rgb_channels / rgb_channels_to_hex_value / hex_value_to_hsv_channels",COL)],None,["returned channels"])
p("P05","Nearest-colour search returns a nearest colour, cached or not",
"The approximation of any colour value is a registered palette colour whose squared RGB distance to it is minimal among all registered ones, a registered value is approximated by itself, and the list form is ordered by increasing distance and no longer than requested. Answers served from the cache equal freshly computed ones after any history of searches and registrations.",
["inputs","histories"],"all colour values, all palettes and all interleavings of searches and registrations",
"Staleness needs a search, a registration and a repeated search in the right order; minimality needs all 16M values.",
[COL],[("Approximator.add_to_map / find_closest / approximate",COL)],["Approximator._lookup_table","Approximator._approximation_cache"],["returned colours"])
p("P06","Rendering decorates text without altering it",
"For any text and style, removing from the result the decoration a renderer adds (SGR sequences, tmux style blocks, debug markers, the enclosing HTML span) gives back exactly the original text including its line breaks, and every line carries its own opening and closing so that no formatting crosses a line break. With no style, or when formatting is disallowed, SGR rendering adds nothing at all and in SGR and tmux rendering the attributes switched on are exactly those set in the style.",
["inputs","configurations"],"all texts (without control sequences of their own), styles and renderer settings",
"The product of texts, line-break kinds, nine attributes, colour kinds and settings cannot be sampled.",
[REN],[("SgrRenderer.render / _render_attributes / _render_color / is_sgr_usage_allowed",REN),("TmuxRenderer.render / _sgr_to_tmux_style",REN),("DebugRenderer, NoOpRenderer, HtmlRenderer",REN)],["SgrRenderer._force_styles"],["rendered strings"])
p("P07","Compatibility modes never emit colours the terminal lacks",
"In 16-colour compatibility mode the rendered output contains only 16-colour codes, and in 256-colour mode no RGB codes, whatever the colour of the style; the substituted colour is the nearest one of that palette, foreground stays foreground and background stays background. Without compatibility modes each colour is emitted in its own native form.",
["inputs","configurations"],"all colours of all kinds for foreground and background under all compatibility settings",
"Every colour kind, target palette, and fg/bg combination over 16M values.",
[REN,COL],[("SgrRenderer._render_color",REN),("ColorIndexed16.to_sgr / ColorIndexed256.to_sgr / ColorRGB.to_sgr",COL)],["SgrRenderer._compatibility_16_colors","SgrRenderer._compatibility_256_colors"],["rendered SGR codes"])
p("P08","Composed texts keep order, length and styles",
"Appending or prepending strings and texts gives a text whose raw content is the concatenation in that order, whose length is the length of that content, and in which every piece keeps the style it was created with. Pieces added as plain strings carry no style, and the text that was added is left unchanged.",
["histories","inputs"],"all sequences of append, prepend and addition operations over any pieces",
"Aliasing between composed texts shows only after particular sequences of operations.",
[REN],[("Text.append / prepend / __add__ / __radd__ / __len__ / raw / _render_using",REN)],["Text._runs"],["Text.raw(), len(), rendering"])
p("P09","Style inheritance fills only what is unset",
"A style created with a parent takes from the parent exactly the properties it does not set itself, for every property independently, and never modifies the parent; an explicitly disabled attribute stays disabled. Swapping foreground and background exchanges exactly these two, and doing it twice restores the style.",
["inputs","configurations"],"all combinations of set, unset and disabled properties in child and parent",
"There are 3^11 combinations per style pair.",
[REN],[("Style.__init__ / _clone_from / flip / fg / bg",REN)],["Style fields"],["style properties"])
p("P10","Padded distribution fills the requested width exactly",
"Distributing one or more values over a width returns a string of exactly that length that contains all the values in order separated by at least one space, with the gaps differing by at most one, or raises an error exactly when they cannot fit. Optional padding before or after adds a gap at that end.",
["inputs"],"all lists of values, widths and padding options",
"Rounding of the gap sizes depends on all lengths at once.",
[REN],[("distribute_padded",REN)],None,["returned string"])
p("P11","Formatted time deltas never exceed the requested length",
"For any number of seconds and any maximum length from 3 up, the formatted time delta is not longer than that maximum, and an explicit padding request yields exactly the formatter's length. The amount shown is the elapsed time truncated to the smallest unit displayed (with a month of 30 days and a year of 12 months), a minus sign appears only for negative inputs, and amounts too big for the format yield its overflow message. Formatters made of units of one's own truncate the same way, whatever their ratios and thresholds.",
["inputs"],"all real inputs, negative ones included, and all maximum lengths",
"Width overflows occur only at unit boundaries over a range of years.",
['pytermor/util/time_delta.py'],[("TimeDeltaFormatter.format / format_raw / _compute_max_len",'pytermor/util/time_delta.py'),("format_time_delta, registry.find_matching",'pytermor/util/time_delta.py')],["registered formatters"],["returned string"])
p("P12","Automatic float and unit-prefix formatting fits the required length",
"For any finite number and any required length from 1 up, the formatted text has exactly that length and denotes the number rounded to the digits shown (rounded down only where rounding up would need a digit more than there is room for); the exponent form is used only when allowed, exclamation marks are shown only where not even the exponent fits, and without the exponent form only a number whose integer part does not fit is refused with an error. A value formatted with an automatic unit prefix is not longer than the formatter's declared maximum, and its digits and prefix together denote the value rounded to the digits shown (truncated to whole units without a prefix where the formatter is set up so).",
["inputs"],"all finite floating-point values, all lengths, both preset formatters and other ones with room for at least five characters",
"Rounding carries change the number of digits for isolated values only.",
['pytermor/util/auto_float.py','pytermor/util/prefixed_unit.py'],[("format_auto_float",'pytermor/util/auto_float.py'),("PrefixedUnitFormatter.format",'pytermor/util/prefixed_unit.py')],None,["returned string"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
print(s.get('type'), len(P))
for x in P:
    try: jsonschema.validate(x,s if s.get('type')=='object' else s.get('items',s))
    except Exception as e: print(x['id'],str(e)[:200])
