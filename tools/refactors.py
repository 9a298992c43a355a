"""behaviour-preserving edits of /repo; the checks must stay quiet on them:  python3 tools/refactors.py [NAME-SUBSTR...]"""
import os
import shutil
import subprocess
import sys

R = []


def ref(name, prefix, *edits, only=None):
    R.append((name, prefix, edits, only))


BUF = 'kolombos/byteio/segment/buffer.py'
ref('detach-helper', 'K', (BUF, '''                if cur_element.data_len <= req_bytes:
                    output.append(cur_element)
                    req_bytes -= cur_element.data_len
                    self._segment_chain.popleft()
                    continue

                else:
                    cur_element_left = cur_element.split(req_bytes)
                    output.append(cur_element_left)
                    break
''', '''                if cur_element.data_len > req_bytes:
                    output.append(cur_element.split(req_bytes))
                    break

                req_bytes = req_bytes - self._take_whole(output)
                continue
'''), (BUF, '''    def _format_multiple(''', '''    def _take_whole(self, output: List[Chainable]) -> int:
        el = self._segment_chain.popleft()
        output.append(el)
        return el.data_len

    def _format_multiple('''), only='tach')
ref('detach-while-chain', 'K', (BUF, '''        while len(self._segment_chain) > 0:
            cur_element = self._segment_chain[0]
''', '''        chain = self._segment_chain
        while chain:
            cur_element = chain[0]
'''), only='tach')
ref('detach-popfirst', 'K', (BUF, '''            elif isinstance(cur_element, StartSequenceRef):
                if req_bytes == 0 and not exhaust:
                    break
                output.append(cur_element)
                self._active_sgrs.append(cur_element.ref)

            elif isinstance(cur_element, StopSequenceRef):
                self._active_sgrs.remove(cur_element.ref)

            elif isinstance(cur_element, OneUseSequenceRef):
                output.append(cur_element)

            self._segment_chain.popleft()
''', '''            if isinstance(cur_element, StartSequenceRef) and req_bytes == 0 and not exhaust:
                break

            self._segment_chain.popleft()
            if isinstance(cur_element, StartSequenceRef):
                self._active_sgrs.append(cur_element.ref)
                output.append(cur_element)
            elif isinstance(cur_element, StopSequenceRef):
                self._active_sgrs.remove(cur_element.ref)
            elif isinstance(cur_element, OneUseSequenceRef):
                output.append(cur_element)
'''), only='tach')
ref('detach-bytes-guard', 'K', (BUF, '''        if self.data_len >= req_bytes or force:
            detached = self._detach(req_bytes)
            if len(detached) == 0:
                self._debug_buffer.write(1, 'Responsing with EOF')
                self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
                raise EOFError

            return self._format_multiple(detached, printers)

        self._debug_buffer.write(1, 'Responsing with WaitRequest')
        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
        raise WaitRequest
''', '''        if not force and self.data_len < req_bytes:
            self._debug_buffer.write(1, 'Responsing with WaitRequest')
            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
            raise WaitRequest

        detached = self._detach(req_bytes)
        if not detached:
            self._debug_buffer.write(1, 'Responsing with EOF')
            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
            raise EOFError
        return self._format_multiple(detached, printers)
'''), only='tach')
ref('detach-line-helper', 'K', (BUF, '''        avail_bytes = 0
        has_newline = False
        for el in self._segment_chain:
            avail_bytes += el.data_len
            if el.is_newline:
                has_newline = True
                break
''', '''        avail_bytes, has_newline = self._measure_line()
'''), (BUF, '''    def preview(self''', '''    def _measure_line(self):
        total = 0
        for el in self._segment_chain:
            total = total + el.data_len
            if el.is_newline:
                return total, True
        return total, False

    def preview(self'''), only='tach')
ref('detach-line-order', 'K', (BUF, '''        for el in self._segment_chain:
            avail_bytes += el.data_len
            if el.is_newline:
                has_newline = True
                break
''', '''        for el in self._segment_chain:
            if has_newline:
                break
            has_newline = el.is_newline
            avail_bytes += el.data_len
'''), only='tach')
ref('format-join', 'K', (BUF, '''        output = ''
        for cur_element in detached:
            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())

        # @TODO optimize sgrs: {RED}A{COLOR_OFF}{RED}A{COLOR_OFF}... -> {RED}AA{COLOR_OFF}
        return output
''', '''        return ''.join(self._format_one(el, printer) for el in detached)

    def _format_one(self, el: Chainable, printer: SegmentPrinter) -> str:
        if isinstance(el, SequenceRef):
            return self._append_sgr_to_output(printer, el.ref.assemble())
        if isinstance(el, Segment):
            return printer.print(el)
        return ''
'''), only='tach')
ref('attach-any', 'K', (BUF, '''            f = Span(segment.opening_seq)
            if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:
                self._segment_chain.append(segment)
                continue

            self._segment_chain.extend([
                StartSequenceRef(f.opening_seq),
                segment,
                StopSequenceRef(f.opening_seq),
                OneUseSequenceRef(f.closing_seq)
            ])
''', '''            span = Span(segment.opening_seq)
            if all(p == 0 for p in span.opening_seq.params):
                self._segment_chain.append(segment)
            else:
                self._segment_chain.append(StartSequenceRef(span.opening_seq))
                self._segment_chain.append(segment)
                self._segment_chain.append(StopSequenceRef(span.opening_seq))
                self._segment_chain.append(OneUseSequenceRef(span.closing_seq))
'''), only='tach')
ref('sum-generator', 'K', (BUF, "return sum([el.data_len for el in self._segment_chain])", '''total = 0
        for el in self._segment_chain:
            total += el.data_len
        return total'''), only='tach')
ref('segment-split', 'K', ('kolombos/byteio/segment/segment.py', '''        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])

        self._raw = self._raw[num_bytes:]
        self._processed = self._processed[num_bytes:]
        return left
''', '''        raw_left, raw_right = self._raw[:num_bytes], self._raw[num_bytes:]
        processed_left, processed_right = self._processed[:num_bytes], self._processed[num_bytes:]
        self._raw, self._processed = raw_right, processed_right
        return Segment(self._opening_seq, self._type_label, raw_left, processed_left)
'''), only='tach')

BIN = 'kolombos/byteio/formatter/binary.py'
ref('binary-row-helper', 'K', (BIN, '''            self._output_buffer.write_with_offset(
                final_raw_row +
                self._justify_raw(cur_cols - data_len) +
                self.PADDING_SECTION +
                separator +
                final_proc_row, offset=self._offset, end='\\n')
''', '''            self._print_row(final_raw_row, final_proc_row, cur_cols - data_len, separator)
'''), (BIN, '''    def _justify_raw(''', '''    def _print_row(self, hex_part: str, char_part: str, missing: int, separator: str):
        row = ''.join([hex_part, self._justify_raw(missing), self.PADDING_SECTION, separator, char_part])
        self._output_buffer.write_with_offset(row, offset=self._offset, end='\\n')

    def _justify_raw('''), only='format')
ref('binary-except-tuple', 'K', (BIN, '''            except WaitRequest:
                break
            except EOFError:
                break
''', '''            except (WaitRequest, EOFError):
                break
'''), only='format')
ref('binary-loop-helper', 'K', (BIN, '''        while True:
            self._debug_buffer.write(1, 'Requested ''', '''        while self._format_row(req_bytes, cur_cols):
            pass

        if self._parser_buffer.closed and SettingsManager.app_settings.effective_print_offsets:
            self._output_buffer.write(
                Console.format_total_size(self._offset)
            )

    def _format_row(self, req_bytes: int, cur_cols: int) -> bool:
        if True:
            self._debug_buffer.write(1, 'Requested '''), (BIN, '''            except WaitRequest:
                break
            except EOFError:
                break
''', '''            except WaitRequest:
                return False
            except EOFError:
                return False
'''), (BIN, '''            self._offset += data_len

        if self._parser_buffer.closed and SettingsManager.app_settings.effective_print_offsets:
            self._output_buffer.write(
                Console.format_total_size(self._offset)
            )
''', '''            self._offset += data_len
        return True
'''), only='format')
ref('binary-early-cols', 'K', (BIN, '''        cur_cols = self._cols
        if cur_cols is None or cur_cols < 1:  # auto
            prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
            cur_cols = self._compute_cols_num(len(prefix_example))

        req_bytes = cur_cols
        if self._parser_buffer.closed:
            req_bytes = min(self._segment_buffer.data_len, cur_cols)
''', '''        if self._cols is not None and self._cols >= 1:
            cur_cols = self._cols
        else:
            cur_cols = self._compute_cols_num(len(Console.format_prefix_with_offset(self._offset, NOOP_SPAN)))

        closed = self._parser_buffer.closed
        req_bytes = min(self._segment_buffer.data_len, cur_cols) if closed else cur_cols
'''), only='format')
ref('binary-pad-format', 'K', (BIN, "        return '   '*num_bytes", "        return ' ' * (3 * num_bytes)"), only='format')
TXT = 'kolombos/byteio/formatter/text.py'
ref('text-newline-helper', 'K', (TXT, '''            if not ReplaceSGR().apply(final_proc_line).endswith('\\n'):
                self._output_buffer.write('', end='\\n')
''', '''            if not self._is_terminated(final_proc_line):
                self._output_buffer.write('\\n', end='')
'''), (TXT, '''    def format(self):''', '''    @staticmethod
    def _is_terminated(line: str) -> bool:
        visible = ReplaceSGR('').apply(line)
        return visible[-1:] == '\\n'

    def format(self):'''), only='format')
ref('text-end-arg', 'K', (TXT, '''            self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num)

            if not ReplaceSGR().apply(final_proc_line).endswith('\\n'):
                self._output_buffer.write('', end='\\n')
''', '''            terminated = ReplaceSGR().apply(final_proc_line).endswith('\\n')
            self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num, end='' if terminated else '\\n')
'''), only='format')
ref('text-lines-done', 'K', (TXT, 'self._line_num = 1', 'self._lines_done = 0'), (TXT, 'line_num=self._line_num)', 'line_num=self._lines_done + 1)'),
    (TXT, 'self._line_num += 1', 'self._lines_done += 1'), only='format')
ref('hex-format', 'K', ('kolombos/byteio/formatter/_abstract.py', "return ''.join([f' {b:02x}' for b in seg.raw])", '''result = ''
        for b in seg.raw:
            result += ' {:02x}'.format(b)
        return result'''), only='r')

PAR = 'kolombos/byteio/parser/parser.py'
ref('parser-next-group', 'K', (PAR, '''        mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
        primary_mgroup = min(mgroups.keys())
        raw = cast(bytes, m.group(primary_mgroup+1))
''', '''        primary_mgroup = next(idx for idx, grp in enumerate(m.groups()) if grp)
        raw = cast(bytes, m.group(primary_mgroup+1))
'''), only='K.')
ref('parser-loop-group', 'K', (PAR, '''        mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
        primary_mgroup = min(mgroups.keys())
        raw = cast(bytes, m.group(primary_mgroup+1))
''', '''        primary_mgroup = 0
        groups = m.groups()
        while not groups[primary_mgroup]:
            primary_mgroup += 1
        raw = cast(bytes, groups[primary_mgroup])
'''), only='K.')
ref('parser-resolve-get', 'K', (PAR, '''        if mgroup not in self.MGROUP_TO_TPL_MAP.keys():
            raise RuntimeError(f'No template or resolver defined for mgroup {mgroup}: {m.groups()}')

        tpl = self.MGROUP_TO_TPL_MAP[mgroup]
        if isinstance(tpl, Template):
            return tpl
        elif isinstance(tpl, Callable):
            return tpl(m)
        raise TypeError(f'Match must resolve to template or resolver, got {tpl!r}')
''', '''        tpl = self.MGROUP_TO_TPL_MAP.get(mgroup)
        if tpl is None:
            raise RuntimeError(f'No template or resolver defined for mgroup {mgroup}: {m.groups()}')
        if not isinstance(tpl, Template):
            tpl = tpl(m)
        return tpl
'''), only='K.')
ref('parser-csi-invert', 'K', (PAR, '''        is_sgr = (m.group(8) == b'm')
        if is_sgr:
            sgr_params = m.group(6)                             # ↕ overload substitute() for EscapeSequenceSGRTemplate
            if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
                return self._template_registry.ESCAPE_SEQ_SGR_0
            tpl = self._template_registry.ESCAPE_SEQ_SGR
            tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
            return tpl
        return self._template_registry.ESCAPE_SEQ_CSI
''', '''        registry = self._template_registry
        sgr_params, final = m.group(6, 8)
        if final != b'm':
            return registry.ESCAPE_SEQ_CSI
        if sgr_params in (b'', b'0'):
            return registry.ESCAPE_SEQ_SGR_0
        registry.ESCAPE_SEQ_SGR.set_details_fmt_str(sgr_params)
        return registry.ESCAPE_SEQ_SGR
'''), only='K.')
ref('parser-parse-split', 'K', (PAR, '''        incomplete = b''
        if not self._parser_buffer.closed and (m := self.R_INCOMPLETE.search(raw)):
            incomplete = m.group()  # cannot be identified until there is more data
        self._incomplete_len = len(incomplete)

        unmatched = apply_filters(raw[:len(raw) - len(incomplete)], self.F_SEPARATOR)
''', '''        incomplete = self._find_incomplete(raw)
        self._incomplete_len = len(incomplete)
        complete = raw[:len(raw) - self._incomplete_len]

        unmatched = self.F_SEPARATOR.apply(complete)
'''), (PAR, '''    def _substitute(self, m''', '''    def _find_incomplete(self, raw: bytes) -> bytes:
        if self._parser_buffer.closed:
            return b''
        m = self.R_INCOMPLETE.search(raw)
        return m.group(0) if m else b''

    def _substitute(self, m'''), only='K.')
ref('parser-regex-equivalent', 'K', (PAR, "b'([\\x01-\\x07\\x0e-\\x1a\\x1c-\\x1f]+)|'", "b'([\\x01-\\x07\\x0e-\\x1a\\x1c-\\x1f]{1,})|'"),
    (PAR, "b'([\\x80-\\xc1\\xf5-\\xff]+|[\\xc2-\\xf4])|'", "b'([\\x80-\\xc1\\xf5-\\xff]{1,}|[\\xc2-\\xf4])|'"), only='K.')
PB = 'kolombos/byteio/parser/buffer.py'
ref('parser-buffer-crop', 'K', (PB, '''        offset_delta = self._raw_buffer.rfind(new_buffer)
        if offset_delta == -1:
            raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')

        self._raw_buffer = self._raw_buffer[offset_delta:]
''', '''        if not self._raw_buffer.endswith(new_buffer):
            raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')

        self._raw_buffer = self._raw_buffer[-len(new_buffer):]
'''), only='K.')
RD = 'kolombos/byteio/reader.py'
ref('reader-crop-helper', 'K', (RD, '''                    for line_break in re.finditer(b'\\x0a', raw_input):
                        lines += 1
                        if lines >= max_lines:
                            raw_input = raw_input[:line_break.end()-1]
''', '''                    for line_break in re.finditer(b'\\n', raw_input):
                        lines = lines + 1
                        if not lines < max_lines:
                            raw_input = raw_input[:line_break.start()]
'''), only='K.reader')
ref('reader-limit-var', 'K', (RD, '''                if max_bytes and self._offset + len(raw_input) > max_bytes:
                    raw_input = raw_input[:max_bytes - self._offset]
''', '''                left = max_bytes - self._offset if max_bytes else None
                if left is not None and len(raw_input) > left:
                    raw_input = raw_input[:left]
'''), only='K.reader')
ref('reader-while-true', 'K', (RD, '''            while raw_input := self._io.read(self._chunk_size):
''', '''            while True:
                raw_input = self._io.read(self._chunk_size)
                if not raw_input:
                    break
'''), only='K.reader')
ref('reader-chunk-size', 'K', (RD, '''        if SettingsManager.app_settings.buffer:
            return int(SettingsManager.app_settings.buffer)
        if SettingsManager.app_settings.debug > 0:
            return self.READ_CHUNK_SIZE_DEBUG
        return self.READ_CHUNK_SIZE
''', '''        settings = SettingsManager.app_settings
        return int(settings.buffer) if settings.buffer else (self.READ_CHUNK_SIZE_DEBUG if settings.debug > 0 else self.READ_CHUNK_SIZE)
'''), only='K.reader')

TE = 'kolombos/byteio/template/template_escape.py'
ref('escape-list', 'K', (TE, '''        if (self._read_mode != ReadMode.BINARY and
            not SettingsManager.app_settings.no_separators and (
                self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS or
                self._marker_details is MarkerDetailsEnum.FULL_DETAILS
            )):
            self._wrap_in_separators()
''', '''        if self._needs_separators():
            self._wrap_in_separators()
'''), (TE, '''    def _fill_additional_segments(''', '''    def _needs_separators(self) -> bool:
        if self._read_mode == ReadMode.BINARY or SettingsManager.app_settings.no_separators:
            return False
        return self._marker_details in (MarkerDetailsEnum.BRIEF_DETAILS, MarkerDetailsEnum.FULL_DETAILS)

    def _fill_additional_segments('''), only='K.template')
ref('escape-details-branches', 'K', (TE, '''        params_processed = params_raw.decode('ascii', errors='ignore')

        if self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:
            params_processed = self._get_brief_details_processed()
''', '''        if self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:
            params_processed = self._get_brief_details_processed()
        else:
            params_processed = params_raw.decode('ascii', 'ignore')
'''), only='K.template')
TS = 'kolombos/byteio/template/template_escape_sgr.py'
ref('sgr-mode-var', 'K', (TS, '''                brief_type = 'F' if pcode == IntCodes.COLOR_EXTENDED else 'B'
                if len(pcodes) >= 2 and pcodes[0] == IntCodes.EXTENDED_MODE_256:
                    pcodes_allowed.extend([pcode, pcodes.pop(0), pcodes.pop(0)])
                    brief_names.append(f'{brief_type}{pcodes_allowed[-1]}')
                    continue
''', '''                brief_type = {IntCodes.COLOR_EXTENDED: 'F', IntCodes.BG_COLOR_EXTENDED: 'B'}[pcode]
                if len(pcodes) >= 2 and pcodes[0] == IntCodes.EXTENDED_MODE_256:
                    mode, idx = pcodes[:2]
                    del pcodes[:2]
                    pcodes_allowed += [pcode, mode, idx]
                    brief_names.append(brief_type + str(idx))
                    continue
'''), only='K.template')
ref('sgr-rgb-shift', 'K', (TS, '''                        f'{pcodes_allowed[-3] * 256 * 256 + pcodes_allowed[-2] * 256 + pcodes_allowed[-1]:06X}'
''', '''                        f'{(pcodes_allowed[-3] * 256 + pcodes_allowed[-2]) * 256 + pcodes_allowed[-1]:06X}'
'''), only='K.template')
ref('sgr-index-loop', 'K', (TS, '''        while len(pcodes):  # @TODO''', '''        while pcodes:  # @TODO'''), (TS, '''                    pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])
''', '''                    pcodes_allowed.append(pcode)
                    pcodes_allowed.extend(pcodes[:4])
                    del pcodes[:4]
'''), only='K.template')
ref('sgr-comprehension', 'K', (TS, '''        for p in params:
            try:
                pcodes.append(int(p.split(":")[0]))
            except ValueError:  # empty or private param (e.g. '>4' or '?25'), there is no attribute code in it
                continue
''', '''        for p in params:
            pcode = self._parse_param(p)
            if pcode is not None:
                pcodes.append(pcode)
'''), (TS, '''    def _get_brief_details_processed(''', '''    @staticmethod
    def _parse_param(p: str):
        try:
            return int(p.split(':', 1)[0])
        except ValueError:
            return None

    def _get_brief_details_processed('''), only='K.template')
TT = 'kolombos/byteio/template/template.py'
ref('template-loop', 'K', (TT, '''        return ''.join(self._process_byte(b) for b in raw)
''', '''        result = ''
        for b in raw:
            result += self._process_byte(b)
        return result
'''), only='K.template')
ref('template-segments', 'K', (TT, '''        self._substituted.clear()

        primary_seg = self._create_primary_segment(
            self._opening_seq_stack.get(self._display_mode, self._read_mode),
            raw,
            self._process(raw)  # <-- self._substituted can be changed here
        )
        self._substituted.insert(0, primary_seg)
        return self._substituted
''', '''        self._substituted.clear()
        processed = self._process(raw)
        opening_seq = self._opening_seq_stack.get(self._display_mode, self._read_mode)
        self._substituted.insert(0, self._create_primary_segment(opening_seq, raw, processed))
        return self._substituted
'''), only='K.template')
CO = 'kolombos/console.py'
ref('console-concat', 'K', (CO, "        self._buf += f'{prefix}{s}{end}'\n        if flush:\n            self.flush()\n\n    def flush(self):\n        if not self._buf:\n            return\n\n        Console.debug",
    "        self._buf = self._buf + prefix + str(s) + end\n        if not flush:\n            return\n        self.flush()\n\n    def flush(self):\n        if not self._buf:\n            return\n\n        Console.debug"), only='K.')

AN, RE_, CL, TD, SE = 'pytermor/ansi.py', 'pytermor/render.py', 'pytermor/color.py', 'pytermor/util/time_delta.py', 'pytermor/util/stdlib_ext.py'
ref('p-closing-index', 'P', (AN, '''        opening_params = copy(opening_seq.params)

        while len(opening_params):
            key_params: int|Tuple[int, ...]|None = None

            for complex_len in range(1, min(len(opening_params),
                                            cls._complex_code_max_len + 1)):
                opening_complex_suggestion = tuple(opening_params[:complex_len])

                if opening_complex_suggestion in cls._complex_code_def:
                    key_params = opening_complex_suggestion
                    complex_total_len = (
                        complex_len + cls._complex_code_def[opening_complex_suggestion])
                    opening_params = opening_params[complex_total_len:]
                    break

            if key_params is None:
                key_params = opening_params.pop(0)
            if key_params not in cls._code_to_breaker_map:
                continue

            closing_seq_params.extend(cls._code_to_breaker_map[key_params].params)
''', '''        opening_params = copy(opening_seq.params)

        while opening_params:
            key_params, opening_params = cls._take_next(opening_params)
            if key_params in cls._code_to_breaker_map:
                closing_seq_params += cls._code_to_breaker_map[key_params].params
'''), (AN, '''    @classmethod
    def get_closing_seq(''', '''    @classmethod
    def _take_next(cls, params: List[int]):
        for complex_len in range(1, min(len(params), cls._complex_code_max_len + 1)):
            suggestion = tuple(params[:complex_len])
            if suggestion in cls._complex_code_def:
                return suggestion, params[complex_len + cls._complex_code_def[suggestion]:]
        return params[0], params[1:]

    @classmethod
    def get_closing_seq('''), only='P01')
ref('p-closing-get', 'P', (AN, '''            if key_params not in cls._code_to_breaker_map:
                continue

            closing_seq_params.extend(cls._code_to_breaker_map[key_params].params)
''', '''            breaker = cls._code_to_breaker_map.get(key_params)
            if breaker is not None:
                closing_seq_params.extend(breaker.params)
'''), only='P01')
ref('p-closing-def-local', 'P', (AN, '''                if opening_complex_suggestion in cls._complex_code_def:
                    key_params = opening_complex_suggestion
                    complex_total_len = (
                        complex_len + cls._complex_code_def[opening_complex_suggestion])
                    opening_params = opening_params[complex_total_len:]
                    break
''', '''                extra = cls._complex_code_def.get(opening_complex_suggestion)
                if extra is None:
                    continue
                key_params = opening_complex_suggestion
                opening_params = opening_params[complex_len + extra:]
                break
'''), only='P01')
ref('p-registry-loop', 'P', (AN, '''        for c in [*IntCodes.LIST_COLORS, *IntCodes.LIST_HI_COLORS]:
            cls.bind_regular(c, IntCodes.COLOR_OFF)
''', '''        for c in IntCodes.LIST_COLORS:
            cls.bind_regular(c, IntCodes.COLOR_OFF)
        for c in IntCodes.LIST_HI_COLORS:
            cls.bind_regular(c, IntCodes.COLOR_OFF)
'''), only='P01')
ref('p-assemble-fstring', 'P', (AN, '''        params = self._params
        if params == [0]:  # \\x1b[0m <=> \\x1b[m, saving 1 byte
            params = []

        return (self._CONTROL_CHARACTER +
                self._INTRODUCER +
                self._SEPARATOR.join([str(param) for param in params]) +
                self._TERMINATOR)
''', '''        joined = self._SEPARATOR.join(map(str, self._params))
        if joined == '0':
            joined = ''
        return f'{self._CONTROL_CHARACTER}{self._INTRODUCER}{joined}{self._TERMINATOR}'
'''), only='P02')
ref('p-assemble-branch', 'P', (AN, '''        params = self._params
        if params == [0]:  # \\x1b[0m <=> \\x1b[m, saving 1 byte
            params = []

        return (self._CONTROL_CHARACTER +
''', '''        if len(self._params) == 1 and self._params[0] == 0:
            return self._CONTROL_CHARACTER + self._INTRODUCER + self._TERMINATOR

        params = self._params
        return (self._CONTROL_CHARACTER +
'''), only='P02')
ref('p-assemble-map', 'P', (AN, "self._SEPARATOR.join([str(param) for param in params])", "self._SEPARATOR.join(map(str, params))"), only='P02')
ref('p-init-branches', 'P', (AN, '''            if isinstance(arg, str):
                resolved_param = IntCodes.resolve(arg)
                if not isinstance(resolved_param, int):
                    raise ValueError(f'Attribute is not valid SGR param: {resolved_param}')
                result.append(resolved_param)
            elif isinstance(arg, int):
                result.append(arg)
            elif isinstance(arg, SequenceSGR):
                result.extend(arg.params)
            else:
                raise TypeError(f'Invalid argument type: {arg!r})')
''', '''            if isinstance(arg, int):
                result.append(arg)
                continue
            if isinstance(arg, SequenceSGR):
                result += arg.params
                continue
            if not isinstance(arg, str):
                raise TypeError(f'Invalid argument type: {arg!r})')
            resolved_param = IntCodes.resolve(arg)
            if not isinstance(resolved_param, int):
                raise ValueError(f'Attribute is not valid SGR param: {resolved_param}')
            result.append(resolved_param)
'''), only='P02')
ref('p-validate-range', 'P', (AN, "if value < 0 or value > 255:", "if not 0 <= value <= 255:"), only='P02')
ref('p-rgb-loop', 'P', (AN, "[cls._validate_extended_color(color) for color in [r, g, b]]", "for channel in (r, g, b):\n            cls._validate_extended_color(channel)"), only='P02|P07')
ref('p-eq-isinstance', 'P', (AN, '''        if type(self) != type(other):
            return False
        return self._params == other._params

    @property
    def is_color_extended''', '''        return type(self) is type(other) and self._params == other._params

    @property
    def is_color_extended'''), only='P0')
ref('p-justify-helper', 'P', (SE, '''    sanitized = ReplaceSGR().apply(s)
    return s + fillchar * max(0, width - len(sanitized))
''', '''    return s + _fill(s, width, fillchar)


def _fill(s: str, width: int, fillchar: str) -> str:
    missing = width - len(ReplaceSGR().apply(s))
    if missing <= 0:
        return ''
    return fillchar * missing
'''), (SE, '''    sanitized = ReplaceSGR().apply(s)
    return fillchar * max(0, width - len(sanitized)) + s
''', '''    return _fill(s, width, fillchar) + s
'''), only='P03')
ref('p-center-divmod', 'P', (SE, '''    right_fill_len = fill_len // 2
    left_fill_len = fill_len - right_fill_len
''', '''    right_fill_len, odd = divmod(fill_len, 2)
    left_fill_len = right_fill_len + odd
'''), only='P03')
ref('p-center-shift', 'P', (SE, '''    right_fill_len = fill_len // 2
    left_fill_len = fill_len - right_fill_len
''', '''    left_fill_len = (fill_len + 1) // 2
    right_fill_len = fill_len - left_fill_len
'''), only='P03')
ref('p-rgb-shift', 'P', (CL, '''        return ((hex_value & 0xff0000) >> 16,
                (hex_value & 0xff00) >> 8,
                (hex_value & 0xff))
''', '''        return (hex_value >> 16) & 0xff, (hex_value >> 8) & 0xff, hex_value & 0xff
'''), only='P04|P05')
ref('p-rgb-or', 'P', (CL, "return (r << 16) + (g << 8) + b", "return (r << 16) | (g << 8) | b"), only='P04')
ref('p-rgb-mul', 'P', (CL, "return (r << 16) + (g << 8) + b", "return (r * 256 + g) * 256 + b"), only='P04')
ref('p-hsv-order', 'P', (CL, '''        if c == 0:
            h = 0
        elif v == rn:
            h = 60 * (0 + (gn - bn)/c)
        elif v == gn:
            h = 60 * (2 + (bn - rn)/c)
        elif v == bn:
            h = 60 * (4 + (rn - gn)/c)
        else:
            raise LogicError('Impossible if-branch, algorithm is implemented '
                             'incorrectly')

        if v == 0:
            s = 0
        else:
            s = c/v

        if h < 0:
            h += 360
''', '''        s = c/v if v != 0 else 0
        if c == 0:
            return 0, s, v

        if v == rn:
            h = 60 * ((gn - bn)/c)
        elif v == gn:
            h = 60 * (2 + (bn - rn)/c)
        else:
            h = 60 * (4 + (rn - gn)/c)
        if h < 0:
            h += 360
'''), only='P04')
ref('p-approx-helper', 'P', (CL, '''            map_r, map_g, map_b = Color.hex_value_to_rgb_channels(cached_hex)
            distance_sq = (pow(map_r - input_r, 2) +
                           pow(map_g - input_g, 2) +
                           pow(map_b - input_b, 2))

            result.append((cached_color, distance_sq))
''', '''            distance_sq = self._distance_sq(cached_hex, input_r, input_g, input_b)
            result.append((cached_color, distance_sq))
'''), (CL, '''    def approximate(self, hex_value: int, max''', '''    @staticmethod
    def _distance_sq(hex_value: int, r: int, g: int, b: int) -> int:
        map_r, map_g, map_b = Color.hex_value_to_rgb_channels(hex_value)
        return (map_r - r) ** 2 + (map_g - g) ** 2 + (map_b - b) ** 2

    def approximate(self, hex_value: int, max'''), only='P05')
ref('p-approx-sort', 'P', (CL, '''        sorted_result = sorted(result, key=lambda r: r[1])
        return [c for c, _ in sorted_result[:max_results]]
''', '''        result.sort(key=lambda r: r[1])
        return [pair[0] for pair in result[:max_results]]
'''), only='P05')
ref('p-approx-get', 'P', (CL, '''        if hex_value in self._approximation_cache.keys():
            return self._approximation_cache.get(hex_value)

        if len(self._approximation_cache) == 0:''', '''        cached = self._approximation_cache.get(hex_value)
        if cached is not None:
            return cached

        if not self._approximation_cache:'''), only='P05')
ref('p-approx-add-guard', 'P', (CL, '''        if color.hex_value is None:
            return

        if color.hex_value not in self._lookup_table.keys():
            self._approximation_cache.clear()
            self._lookup_table[color.hex_value] = color
''', '''        value = color.hex_value
        if value is None or value in self._lookup_table:
            return
        self._lookup_table[value] = color
        self._approximation_cache.clear()
'''), only='P05')
ref('p-render-join', 'P', (RE_, '''        rendered_text = ''
        for line in str(text).splitlines(keepends=True):
            rendered_text += Span(opening_seq).wrap(line)
        return rendered_text

    @classmethod
    def _render_attributes''', '''        span = Span(opening_seq)
        return ''.join(span.wrap(line) for line in str(text).splitlines(keepends=True))

    @classmethod
    def _render_attributes'''), only='P06|P07')
ref('p-render-tmux-list', 'P', (RE_, '''        rendered_text = ''
        for line in str(text).splitlines(keepends=True):
            rendered_text += opening_tmux_style + line + closing_tmux_style
        return rendered_text
''', '''        lines = []
        for line in str(text).splitlines(keepends=True):
            lines.append(f'{opening_tmux_style}{line}{closing_tmux_style}')
        return ''.join(lines)
'''), only='P06')
ref('p-tmux-sgr-branches', 'P', (RE_, '''                target = 'fg'
                if sgr.params[0] == IntCodes.BG_COLOR_EXTENDED:
                    target = 'bg'

                if sgr''', '''                target = 'bg' if sgr.params[0] == IntCodes.BG_COLOR_EXTENDED else 'fg'

                if sgr'''), (RE_, "result += f'#[{target}={color}]'\n                continue\n", "result = result + '#[' + target + '=' + color + ']'\n                continue\n"), only='P06')
ref('p-render-color-table', 'P', (RE_, '''        if isinstance(color, ColorRGB):
            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)
            if cls._compatibility_256_colors:
                return ColorIndexed256.find_closest(hex_value).to_sgr(bg=bg)
            return color.to_sgr(bg=bg)

        elif isinstance(color, ColorIndexed256):
            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)
            return color.to_sgr(bg=bg)

        elif isinstance(color, ColorIndexed16):
            return color.to_sgr(bg=bg)

        raise NotImplementedError(f'Unknown Color inhertior {color!s}')
''', '''        if not isinstance(color, (ColorRGB, ColorIndexed256, ColorIndexed16)):
            raise NotImplementedError(f'Unknown Color inhertior {color!s}')

        if not isinstance(color, ColorIndexed16) and cls._compatibility_16_colors:
            color = ColorIndexed16.find_closest(hex_value)
        elif isinstance(color, ColorRGB) and cls._compatibility_256_colors:
            color = ColorIndexed256.find_closest(hex_value)
        return color.to_sgr(bg)
'''), only='P06|P07')
ref('p-attributes-append', 'P', (RE_, '''        if squash:
            return reduce(lambda p, c: p + c, result, NOOP_SEQ)
        return result
''', '''        if not squash:
            return result
        squashed = NOOP_SEQ
        for seq in result:
            squashed = squashed + seq
        return squashed
'''), only='P06|P07')
ref('p-usage-order', 'P', (RE_, '''        if cls._force_styles is True:
            return True
        if cls._force_styles is None:
            return False
        return sys.stdout.isatty()
''', '''        if cls._force_styles is None:
            return False
        return cls._force_styles is True or sys.stdout.isatty()
'''), only='P06|P07')
ref('p-text-append', 'P', (RE_, '''            self._runs += text._runs
''', '''            self._runs.extend(text._runs)
'''), (RE_, '''            self._runs = text._runs + self._runs
''', '''            self._runs = [*text._runs, *self._runs]
'''), only='P08')
ref('p-text-helper', 'P', (RE_, '''        if isinstance(text, str):
            self._runs.append(self._TextRun(text))
        elif isinstance(text, Text):
            self._runs += text._runs
        else:
            raise TypeError('Can add Text to another Text instance or str only')

    def prepend(self, text: str|Text):
        if isinstance(text, str):
            self._runs.insert(0, self._TextRun(text))
        elif isinstance(text, Text):
            self._runs = text._runs + self._runs
        else:
            raise TypeError('Can add Text to another Text instance or str only')
''', '''        self._runs = self._runs + self._to_runs(text)

    def prepend(self, text: str|Text):
        self._runs = self._to_runs(text) + self._runs

    def _to_runs(self, text: str|Text) -> list:
        if isinstance(text, str):
            return [self._TextRun(text)]
        if isinstance(text, Text):
            return text._runs
        raise TypeError('Can add Text to another Text instance or str only')
'''), only='P08')
ref('p-text-len', 'P', (RE_, "return sum(len(r) for r in self._runs)", "return len(self.raw())"), only='P08')
ref('p-text-raw-loop', 'P', (RE_, "        return ''.join(run.raw() for run in self._runs)\n", "        result = ''\n        for run in self._runs:\n            result += run.raw()\n        return result\n"), only='P08')
ref('p-style-clone-loop', 'P', (RE_, '''        for attr in list(self.__dict__.keys()) + ['_fg', '_bg']:
            inherit_val = getattr(inherit, attr)
            if getattr(self, attr) is None and inherit_val is not None:
                setattr(self, attr, inherit_val)
''', '''        for attr in [*self.__dict__.keys(), '_fg', '_bg']:
            if getattr(self, attr) is None:
                setattr(self, attr, getattr(inherit, attr))
'''), only='P09')
ref('p-style-clone-explicit', 'P', (RE_, '''        for attr in list(self.__dict__.keys()) + ['_fg', '_bg']:
''', '''        for attr in ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined',
                     'underlined', 'class_name', '_fg', '_bg']:
'''), only='P09')
ref('p-style-color-cond', 'P', (RE_, '''        if fg is not None:
            self._fg = self._resolve_color(fg, True)
        if bg is not None:
            self._bg = self._resolve_color(bg, True)
''', '''        self._fg = self._resolve_color(fg, True)
        self._bg = self._resolve_color(bg, True)
'''), only='P09')
ref('p-style-flip', 'P', (RE_, '''        self._fg, self._bg = self._bg, self._fg
        return self
''', '''        old_fg = self._fg
        self._fg = self._bg
        self._bg = old_fg
        return self
'''), only='P09')
ref('p-distribute-copy', 'P', (RE_, '''    if pad_before:
        values.insert(0, '')
    if pad_after:
        values.append('')

    values_amount''', '''    values = ([''] if pad_before else []) + values + ([''] if pad_after else [])

    values_amount'''), only='P10')
ref('p-distribute-index', 'P', (RE_, '''    for value_idx, value in enumerate(values):
        gape_len = spaces_amount // (gapes_amount or 1)  # for last value
        result += value + ' ' * gape_len
        gapes_amount -= 1
        spaces_amount -= gape_len
''', '''    for value in values:
        gape_len = spaces_amount // max(1, gapes_amount)
        result += value
        result += ' ' * gape_len
        spaces_amount -= gape_len
        gapes_amount -= 1
'''), only='P10')
ref('p-distribute-sum', 'P', (RE_, "values_len = sum(len(v) for v in values)", "values_len = len(''.join(values))"), only='P10')
ref('p-time-for', 'P', (TD, '''        while result is None and unit_idx < len(self._units):
            unit = self._units[unit_idx]
''', '''        for unit in self._units:
            if result is not None:
                break
'''), (TD, '''                num = next_num
                unit_idx += 1
                continue
''', '''                num = next_num
'''), only='P11')
ref('p-time-helper', 'P', (TD, '''            unit_name = unit.name
            unit_name_suffixed = unit_name
            if self._plural_suffix and trunc(num) != 1:
                unit_name_suffixed += self._plural_suffix

            short_unit_name = unit_name[0]
            if unit.custom_short:
                short_unit_name = unit.custom_short
''', '''            unit_name = unit.name
            unit_name_suffixed = self._suffixed(unit, num)
            short_unit_name = unit.custom_short or unit_name[0]
'''), (TD, '''    def _compute_max_len(''', '''    def _suffixed(self, unit, num) -> str:
        if not self._plural_suffix or trunc(num) == 1:
            return unit.name
        return unit.name + self._plural_suffix

    def _compute_max_len('''), only='P11')
ref('p-time-floordiv', 'P', (TD, "next_num = floor(num / next_unit_ratio)", "next_num = int(num / next_unit_ratio)"), only='P11')
ref('p-time-return', 'P', (TD, '''        result = self.format_raw(seconds)
        if result is None:
            result = self._overflow_msg[:self.max_len]

        if always_max_len:
            result = rjust_sgr(result, self._max_len)

        return result
''', '''        result = self.format_raw(seconds)
        if result is None:
            result = self._overflow_msg[:self._max_len]
        return rjust_sgr(result, self._max_len) if always_max_len else result
'''), only='P11')

# ---- third batch: state, naming and decomposition edits over everything a planted bug may touch
AF = 'kolombos/byteio/formatter/_abstract.py'
RB = 'kolombos/runner/byteio.py'
SG = 'kolombos/byteio/segment/segment.py'
TU = 'kolombos/byteio/template/template_utf8.py'
TN = 'kolombos/byteio/template/template_newline.py'
TC = 'kolombos/byteio/template/template_control.py'
PO = 'kolombos/byteio/partial_override.py'
ST = 'kolombos/settings.py'
ref('preview-comprehension', 'K', (BUF, '''            values_str = []
            has_more_str = '..' if has_more else ''
            for value in values:
                if isinstance(value, int):
                    values_str.append(f'{value:02x}')
                elif isinstance(value, SequenceRef):
                    values_str.append(Spans.ITALIC(self._preview_sgr(value.ref.assemble())))
''', '''            has_more_str = '..' if has_more else ''
            values_str = [f'{value:02x}' if isinstance(value, int)
                          else Spans.ITALIC(self._preview_sgr(value.ref.assemble()))
                          for value in values]
'''))
ref('preview-rename', 'K', (BUF, 'preview_data = self._preview_collect(max_input_len)', 'preview_data = self._collect_for_preview(max_input_len)'),
    (BUF, 'def _preview_collect(self', 'def _collect_for_preview(self'))
ref('preview-count-first', 'K', (BUF, '''        for idx, el in enumerate(self._segment_chain):
            if idx >= max_input_len:
                max_input_exceeded = True

            if isinstance(el, Segment):
                if not max_input_exceeded:
                    result.extend(el.raw)
                raw_byte_len += el.data_len

            elif isinstance(el, SequenceRef):
                sgr_len = len(el.ref.assemble())
                if not max_input_exceeded:
                    result.append(el)
                sgr_byte_len += sgr_len
''', '''        for idx, el in enumerate(self._segment_chain):
            max_input_exceeded = idx >= max_input_len
            if isinstance(el, SequenceRef):
                sgr_byte_len += len(el.ref.assemble())
                if not max_input_exceeded:
                    result.append(el)
            elif isinstance(el, Segment):
                raw_byte_len += el.data_len
                if not max_input_exceeded:
                    result += el.raw
'''))
ref('debug-printers-renamed', 'K', *[(f, a, a.replace('_debug_', '_dbg_')) for f in (AF,) for a in
    ('self._debug_raw_seg_printer =', 'self._debug_proc_seg_printer =', 'self._debug_sgr_seg_printer =')],
    *[(f, f'                    self._debug_{k}_seg_printer,', f'                    self._dbg_{k}_seg_printer,') for f in (BIN, TXT) for k in ('sgr', 'raw', 'proc')])
ref('safe-table', 'K', (AF, '''        for c in seg.raw.decode("ascii", errors="replace"):
            if ord(c) in WHITESPACE_CHARCODES:
                result += '·'
            elif ord(c) not in PRINTABLE_CHARCODES:
                result += '▯'
            else:
                result += c
''', '''        for code in seg.raw:
            if code in WHITESPACE_CHARCODES:
                result += '·'
            elif code in PRINTABLE_CHARCODES:
                result += chr(code)
            else:
                result += '▯'
'''))
ref('text-state-first', 'K', (TXT, '''            self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num)

            if not ReplaceSGR().apply(final_proc_line).endswith('\\n'):
                self._output_buffer.write('', end='\\n')

            self._offset += self._segment_buffer.last_detached_data_len
            self._line_num += 1
''', '''            line_num, self._line_num = self._line_num, self._line_num + 1
            self._offset += self._segment_buffer.last_detached_data_len
            is_terminated = ReplaceSGR().apply(final_proc_line)[-1:] == '\\n'
            self._output_buffer.write_with_line_num(final_proc_line, line_num=line_num)
            if not is_terminated:
                self._output_buffer.write('')
'''))
ref('text-next-line-helper', 'K', (TXT, '''            try:
                self._debug_buffer.write(1, 'Requested line')
                force = self._parser_buffer.closed
                result = self._segment_buffer.detach_line(force, [
                    self._debug_sgr_seg_printer,
                    self._debug_raw_seg_printer,
                    self._debug_proc_seg_printer,
                    self._proc_seg_printer,
                ])
            except WaitRequest:
                break
            except EOFError:
                break
''', '''            result = self._next_line()
            if result is None:
                break
'''), (TXT, '''    def format(self):
''', '''    def _next_line(self):
        self._debug_buffer.write(1, 'Requested line')
        printers = [
            self._debug_sgr_seg_printer,
            self._debug_raw_seg_printer,
            self._debug_proc_seg_printer,
            self._proc_seg_printer,
        ]
        try:
            return self._segment_buffer.detach_line(self._parser_buffer.closed, printers)
        except (WaitRequest, EOFError):
            return None

    def format(self):
'''))
ref('binary-printer-attr', 'K', (BIN, '''                result = self._segment_buffer.detach_bytes(req_bytes, force, [
                    self._debug_sgr_seg_printer,
                    self._debug_raw_seg_printer,
                    self._debug_proc_seg_printer,
                    self._raw_seg_printer,
                    self._proc_seg_printer,
                ])
''', '''                result = self._segment_buffer.detach_bytes(req_bytes, force, self._printers)
'''), (BIN, '''        self._output_buffer = ConsoleOutputBuffer()
''', '''        self._printers = [
            self._debug_sgr_seg_printer,
            self._debug_raw_seg_printer,
            self._debug_proc_seg_printer,
            self._raw_seg_printer,
            self._proc_seg_printer,
        ]
        self._output_buffer = ConsoleOutputBuffer()
'''))
ref('binary-row-end', 'K', (BIN, '''                final_proc_row, offset=self._offset, end='\\n')

            self._offset += data_len
''', '''                final_proc_row, self._offset)

            self._offset = self._offset + data_len
'''), (BIN, '''            separator = ' '
            if SettingsManager.app_settings.effective_print_offsets:
                separator = Console.get_separator()
''', '''            separator = Console.get_separator() if SettingsManager.app_settings.effective_print_offsets else ' '
'''))
ref('binary-req-if', 'K', (BIN, '''        req_bytes = cur_cols
        if self._parser_buffer.closed:
            req_bytes = min(self._segment_buffer.data_len, cur_cols)
''', '''        closed = self._parser_buffer.closed
        req_bytes = cur_cols if not closed else min(cur_cols, self._segment_buffer.data_len)
'''), (BIN, '''                force = self._parser_buffer.closed
                result = self._segment_buffer.detach_bytes(req_bytes, force, [''', '''                result = self._segment_buffer.detach_bytes(req_bytes, closed, ['''))
ref('runner-steps', 'K', (RB, '''        self._parser_buffer.append_raw(raw_input, finish)
        self._parser.parse(offset)
        self._formatter.format()

        self._debug_buffer.write(1, Console.get_separator_line(main_close=finish))
''', '''        self._ingest(raw_input, offset, finish)
        self._formatter.format()
        self._debug_buffer.write(1, Console.get_separator_line(main_close=finish))

    def _ingest(self, raw_input: bytes, offset: int, finish: bool):
        self._parser_buffer.append_raw(raw_input, finish=finish)
        self._parser.parse(offset)
'''))
ref('parser-no-incomplete-len', 'K', (PAR, '''        self._offset = offset - self._incomplete_len
''', '''        self._offset = max(0, offset - self._incomplete_len)
'''))
ref('parser-substitute-inline', 'K', (PAR, '''        self._handle(m, primary_mgroup, raw)
        return b''
''', '''        template = self._resolve_match(m, primary_mgroup)
        segments = template.substitute(raw)
        self._debug_print_match_segments(primary_mgroup, raw, segments, m.start(primary_mgroup + 1))
        self._segment_buffer.attach(*segments)
        return b\'\'
'''))
ref('parser-assert-if', 'K', (PAR, '''        try:
            assert len(unmatched) == 0, f'Some bytes unprocessed: {Console.printd(unmatched)})'
        except AssertionError as e:
            raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
''', '''        if unmatched:
            raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}')
'''))
ref('buffer-append-join', 'K', (PB, "        self._raw_buffer += b\n", "        self._raw_buffer = b''.join((self._raw_buffer, b))\n"))
ref('buffer-closed-first', 'K', (PB, '''        self._raw_buffer += b
        self._closed = finish
''', '''        self._closed = finish
        if b:
            self._raw_buffer = self._raw_buffer + b
'''))
ref('reader-open-helper', 'K', (RD, '''        if self.reading_stdin:
            self._io = sys.stdin.buffer
            self._debug_buffer.write(1, f'Reading from stdin')
        else:
            self._io = open(self._filename, 'rb')
            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(self._filename)}')
''', '''        if not self.reading_stdin:
            self._io = open(self._filename, mode='rb')
            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(self._filename)}')
            return
        self._debug_buffer.write(1, 'Reading from stdin')
        self._io = sys.stdin.buffer
'''))
ref('reader-finish-helper', 'K', (RD, '''            self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)
            self._read_callback(raw_input, self._offset, True)
''', '''            self._finish(raw_input)
'''), (RD, '''    def _open(self):
''', '''    def _finish(self, rest: bytes):
        self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)
        self._read_callback(rest, self._offset, True)

    def _open(self):
'''))
ref('reader-limit-helper', 'K', (RD, '''                if (max_bytes and self._offset >= max_bytes) or \\
                   (max_lines and lines >= max_lines):
                    break
''', '''                if self._limit_reached(max_bytes, max_lines, lines):
                    break
'''), (RD, '''    def _open(self):
''', '''    def _limit_reached(self, max_bytes, max_lines, lines) -> bool:
        if max_bytes and self._offset >= max_bytes:
            return True
        return bool(max_lines) and lines >= max_lines

    def _open(self):
'''))
ref('reader-find-breaks', 'K', (RD, '''                    for line_break in re.finditer(b'\\x0a', raw_input):
                        lines += 1
                        if lines >= max_lines:
                            raw_input = raw_input[:line_break.end()-1]
''', '''                    for line_break in re.finditer(b'\\n', raw_input):
                        lines += 1
                        if lines == max_lines:
                            raw_input = raw_input[:line_break.start()]
'''))
ref('segment-cut-vars', 'K', (SG, '''        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])

        self._raw = self._raw[num_bytes:]
        self._processed = self._processed[num_bytes:]
        return left
''', '''        raw_left, self._raw = self._raw[:num_bytes], self._raw[num_bytes:]
        processed_left, self._processed = self._processed[:num_bytes], self._processed[num_bytes:]
        return Segment(self._opening_seq, self._type_label, raw_left, processed_left)
'''))
ref('utf8-branches', 'K', (TU, '''        default = lambda: super(type(self), self)._process(raw)

        if self._display_mode.is_ignored:
            return default()

        if self._read_mode.is_text or self._decode:
            decoded = raw.decode('utf8', errors='replace')
            if self._read_mode.is_binary:
                if len(decoded) < len(raw):
                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
                elif len(decoded) > len(raw):
                    decoded = decoded[:len(raw)]
            return decoded

        return default()
''', '''        if self._display_mode.is_ignored or not (self._read_mode.is_text or self._decode):
            return super()._process(raw)
        decoded = raw.decode('utf8', errors='replace')
        if not self._read_mode.is_binary:
            return decoded
        return decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)[:len(raw)]
'''))
ref('newline-expr', 'K', (TN, '''        if self._read_mode.is_text:
            if self._display_mode.is_ignored:
                return f'{default}\\n'   # line breaks must be printed even if char class is ignored

            return f'{default}{Seqs.RESET}\\n'  # prevent colored bg overlapping between lines

        return default
''', '''        if not self._read_mode.is_text:
            return default
        reset = '' if self._display_mode.is_ignored else str(Seqs.RESET)
        return default + reset + '\\n'
'''))
ref('control-map-local', 'K', (TC, '''        for label_raw in raw:
            label_processed = self._process_byte(label_raw)
            self._substituted.append(self._create_primary_segment(
                self._opening_seq_stack.get(self._display_mode, self._read_mode),
                bytes([label_raw]),
                label_processed,
            ))
            self._fill_additional_segments(label_raw)
''', '''        opening_seq = self._opening_seq_stack.get(self._display_mode, self._read_mode)
        for idx in range(len(raw)):
            byte = raw[idx:idx + 1]
            self._substituted.append(self._create_primary_segment(opening_seq, byte, self._process(byte)))
            self._fill_additional_segments(byte[0])
'''))
ref('control-details-in', 'K', (TC, '''        elif self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:
            if b not in self._brief_label_map.keys():
                raise KeyError(f'No brief label defined for byte 0x{b:02x}')
            self._substituted.append(self._create_details_segment(b'', self._brief_label_map[b]))

        elif self._marker_details is MarkerDetailsEnum.FULL_DETAILS:
            self._substituted.append(self._create_details_segment(b'', '{:02x}'.format(b)))
''', '''        elif self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:
            self._substituted.append(self._create_details_segment(b'', self._brief_label_map[b]))
        elif self._marker_details is MarkerDetailsEnum.FULL_DETAILS:
            self._substituted.append(self._create_details_segment(b'', f'{b:02x}'))
'''))
ref('override-get-in', 'K', (PO, '''        if self._override:
            for key in keys:
                if key in self._override.keys():
                    return self._override[key]
        return self._default
''', '''        overrides = self._override or {}
        for key in keys:
            if key in overrides:
                return overrides[key]
        return self._default
'''))
ref('override-next', 'K', (PO, '''        if self._override:
            for key in keys:
                if key in self._override.keys():
                    return self._override[key]
        return self._default
''', '''        if not self._override:
            return self._default
        return next((self._override[key] for key in keys if key in self._override), self._default)
'''))
ref('settings-mode-loop', 'K', (ST, '''        if getattr(self, attr_ignored):
            return DisplayMode.IGNORED
        if getattr(self, attr_focused):
            return DisplayMode.FOCUSED
        return DisplayMode.DEFAULT
''', '''        for attr, mode in ((attr_ignored, DisplayMode.IGNORED), (attr_focused, DisplayMode.FOCUSED)):
            if getattr(self, attr):
                return mode
        return DisplayMode.DEFAULT
'''))
ref('settings-details-order', 'K', (ST, '''        if self.marker <= 0:
            return MarkerDetailsEnum.NO_DETAILS
        if self.marker == 1:
            return MarkerDetailsEnum.BRIEF_DETAILS
        return MarkerDetailsEnum.FULL_DETAILS
''', '''        if self.marker > 1:
            return MarkerDetailsEnum.FULL_DETAILS
        return MarkerDetailsEnum.BRIEF_DETAILS if self.marker == 1 else MarkerDetailsEnum.NO_DETAILS
'''))
ref('console-offset-steps', 'K', (CO, '''            offset_str = f'0x{offset:0{max(4,ceil(len(str(offset))/2)*2)}x}'
''', '''            width = max(4, (len(str(offset)) + 1) // 2 * 2)
            offset_str = '0x' + f'{offset:x}'.rjust(width, '0')
'''))
ref('console-prefix-rjust', 'K', (CO, '''        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
        prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
        return prefix
''', '''        padded = str(label).rjust(Console.MAIN_PREFIX_LEN)
        return f(padded).replace('0x', Spans.DIM('0x')) + Console.get_separator()
'''))
ref('console-line-prefix-order', 'K', (CO, '''        if SettingsManager.app_settings.debug:
            prefix = Console.format_prefix(str(line_num), fmt_)
        elif SettingsManager.app_settings.no_line_numbers:
            prefix = ''
        else:
            prefix = fmt_(f'{line_num:2d}') + Console.get_separator()
''', '''        prefix = ''
        if SettingsManager.app_settings.debug:
            prefix = Console.format_prefix(str(line_num), fmt_)
        elif not SettingsManager.app_settings.no_line_numbers:
            prefix = fmt_(str(line_num).rjust(2)) + Console.get_separator()
'''))
ref('console-flush-swap', 'K', (CO, '''        if not self._buf:
            return

        Console.print(self._buf, end='')
        self._buf = ''
''', '''        pending, self._buf = self._buf, ''
        if pending:
            Console.print(pending, end='')
'''))
ref('console-printd-helper', 'K', (CO, '''            if isinstance(v, bytes):
                v = ' '.join([f'{b:02x}' for b in v])
''', '''            if isinstance(v, bytes):
                v = v.hex(' ')
'''))
ref('escape-primary-helper', 'K', (TE, '''        self._substituted.clear()

        label_raw = raw[:1]   # label of escape sequence is always 1-byte
        params_raw = raw[1:]  # @TODO replace space in CSI params to placeholder

        primary_seg = self._create_primary_segment(
            self._get_label_opening_seq(),
            label_raw,
            self._process(label_raw)
        )
        self._substituted.insert(0, primary_seg)
        self._fill_additional_segments(params_raw)
''', '''        label_raw, params_raw = raw[:1], raw[1:]
        self._substituted[:] = [
            self._create_primary_segment(self._get_label_opening_seq(), label_raw, self._process(label_raw))
        ]
        self._fill_additional_segments(params_raw)
'''))
ref('escape-fresh-list', 'K', (TE, '''        self._substituted.clear()

        label_raw = raw[:1]''', '''        self._substituted = []

        label_raw = raw[:1]'''))
ref('sgr-split-once', 'K', (TS, '''                pcodes.append(int(p.split(":")[0]))
''', '''                code, _, _ = p.partition(":")
                pcodes.append(int(code))
'''))
ref('attach-noop-helper', 'K', (BUF, '''            f = Span(segment.opening_seq)
            if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:
                self._segment_chain.append(segment)
                continue

            self._segment_chain.extend([
                StartSequenceRef(f.opening_seq),
                segment,
                StopSequenceRef(f.opening_seq),
                OneUseSequenceRef(f.closing_seq)
            ])
''', '''            span = Span(segment.opening_seq)
            opening, closing = span.opening_seq, span.closing_seq
            if not opening.params or set(opening.params) == {0}:
                self._segment_chain.append(segment)
            else:
                for el in (StartSequenceRef(opening), segment, StopSequenceRef(opening), OneUseSequenceRef(closing)):
                    self._segment_chain.append(el)
'''))
ref('format-isinstance-order', 'K', (BUF, '''            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())
''', '''            if isinstance(cur_element, SequenceRef):
                if printer.apply_sgr:
                    sgr_str = cur_element.ref.assemble()
                    output += self._preview_sgr(sgr_str) if printer.encode_sgr else sgr_str
            elif isinstance(cur_element, Segment):
                output += printer.print(cur_element)
'''))
ref('detach-last-len', 'K', (BUF, '''        self._last_detached_data_len = sum([el.data_len for el in output])

        self._debug_buffer.write(2, 'Detached ' + Spans.BOLD(sum([el.data_len for el in output])) + ' data byte(s)')
''', '''        self._last_detached_data_len = detached_len = sum(el.data_len for el in output)

        self._debug_buffer.write(2, f'Detached {Spans.BOLD(detached_len)} data byte(s)')
'''))
ref('detach-copy-active', 'K', (BUF, '''        output = []
        output.extend([OneUseSequenceRef(sgr) for sgr in self._active_sgrs])
''', '''        output = [OneUseSequenceRef(sgr) for sgr in self._active_sgrs]
'''), (BUF, '''        output.extend([OneUseSequenceRef(Span(sgr).closing_seq) for sgr in self._active_sgrs])
''', '''        for sgr in self._active_sgrs:
            output.append(OneUseSequenceRef(Span(sgr).closing_seq))
'''))
ref('detach-remaining', 'K', (BUF, '''                if cur_element.data_len <= req_bytes:
                    output.append(cur_element)
                    req_bytes -= cur_element.data_len
                    self._segment_chain.popleft()
                    continue

                else:
                    cur_element_left = cur_element.split(req_bytes)
                    output.append(cur_element_left)
                    break
''', '''                if cur_element.data_len > req_bytes:
                    output.append(cur_element.split(req_bytes))
                    break
                output.append(self._segment_chain.popleft())
                req_bytes -= cur_element.data_len
                continue
'''))
ref('template-details-list', 'K', (TT, '''            s.insert(0, Segment(SequenceSGR.init_color_indexed(255), '', b'', Template.SEPARATOR_LEFT))
            s.append(Segment(SequenceSGR.init_color_indexed(255), '', b'', Template.SEPARATOR_RIGHT))
            return
''', '''            sep_seq = SequenceSGR.init_color_indexed(255)
            s[:] = [Segment(sep_seq, '', b'', Template.SEPARATOR_LEFT), *s, Segment(sep_seq, '', b'', Template.SEPARATOR_RIGHT)]
            return
'''))


def main():
    sel = sys.argv[1:]
    n = bad = 0
    for name, prefix, edits, only in R:
        if sel and not any(s in name for s in sel):
            continue
        n += 1
        d = f'/tmp/ref-{os.getpid()}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        ok = True
        for f, a, b in edits:
            s = open(f'{d}/{f}').read()
            if s.count(a) != 1:
                print(name, 'does not apply:', f, s.count(a), repr(a[:60]))
                ok = False
                break
            open(f'{d}/{f}', 'w').write(s.replace(a, b))
        if ok:
            p = subprocess.run(['python3-vt', '-m', 'kv.run', prefix + '*'] + (['--only', only] if only and not os.environ.get('FULL') else []),
                               cwd='/verif', env={**os.environ, 'KV_REPO': d}, capture_output=True, text=True)
            und = [x for x in p.stdout.splitlines() if 'undecided:' in x]
            vio = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
            state = 'ALARM' if vio or p.returncode else 'undecided' if und else 'ok'
            bad += state == 'ALARM'
            print(f'{name}: {state} {vio[0] if vio else ""}', flush=True)
            if state != 'ok':
                i = next((k for k, x in enumerate(p.stdout.splitlines()) if 'contracts,' in x), 0)
                print('\n'.join('    ' + x[:330] for x in p.stdout.splitlines()[i:i + 5]), p.stderr[-600:], flush=True)
        shutil.rmtree(d, ignore_errors=True)
    print(n, 'edits,', bad, 'alarms')


if __name__ == '__main__':
    main()
