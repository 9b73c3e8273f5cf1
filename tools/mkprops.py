"""regenerates properties.jsonl (kept as code so that it is easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})
S = 'src/hwp5/'
p('C01', 'A command succeeds only if its complete output was delivered',
  'Every command ends by itself, and it exits with status 0 only if everything it was asked to produce has been delivered completely and unaltered to its destination. '
  'When a read, write, open, close or helper tool fails, an interrupt arrives, or the stored record data ends in the middle of a record, so that the output is missing or partial, the exit status is not 0. '
  'With an undamaged document and nothing failing it is 0.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every command and output option, every document, every sequence of failing, short, interrupted or lost operating-system operations and failing or missing helper tools',
  'The tests run the commands on intact files with working disks, pipes and tools; no test makes any operation fail, let alone each one at each point.',
  [S + f for f in ('hwp5txt.py', 'hwp5html.py', 'hwp5odt.py', 'hwp5proc.py', 'proc/', 'utils.py', 'transforms/__init__.py', 'plat/xsltproc.py', 'plat/xmllint.py', 'recordstream.py')],
  [('exit status mapping of each main()', S + 'hwp5txt.py, hwp5html.py, hwp5odt.py, hwp5proc.py'),
   ('output piped through filters and pagers', S + 'utils.py output_thru_subprocess'),
   ('intermediate XML in temporary files', S + 'transforms/__init__.py'),
   ('record framing', S + 'recordstream.py read_record')],
  observe=('exit status', 'stdout', '--output file or directory'))
p('C02', 'No temporary file and no unreaped helper process is left behind',
  'When a command ends, whether it succeeds, fails at any operation or is interrupted by the user, no temporary file it created is left and every helper process it started has been waited for. '
  'The same holds for a conversion or stream opened through the library once the call has returned or raised and what it returned was closed.',
  ['fault_sequences', 'crash_points', 'configurations'],
  'every command and backend, every single or double fault or interrupt at any numbered operation, including failures while creating, writing or closing the temporary file itself',
  'Tests never look into the temporary directory, never fail an operation between creation and removal, and never deliver an interrupt.',
  [S + f for f in ('utils.py', 'transforms/__init__.py', 'hwp5odt.py', 'plat/__init__.py', 'plat/_lxml.py', 'plat/xmllint.py', 'xmlmodel.py')],
  [('temporary file context managers', S + 'utils.py mkstemp_open, make_temp_file'), ('reaping of filters', S + 'utils.py output_thru_subprocess'),
   ('validator temporary', S + 'plat/_lxml.py RelaxNG.validating_output'), ('cipher temporary', S + 'plat/__init__.py get_aes128ecb_decrypt_openssl')],
  observe=('the temporary directory after exit', 'child processes not waited for'))
p('C03', 'Only the declared output is ever written, whatever the document contains',
  'A command creates, changes or removes nothing but its declared output file or directory and its own temporary files, and it never modifies or removes its input. Of a directory that already exists, unpacking changes only the files it writes (hwp5html replaces its output directory). '
  'This holds for every name stored in the document (parent or absolute references, separators, control characters, names that collide) and on every failure path.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every command and output option, documents with hostile storage and stream names, every fault sequence',
  'The fixtures contain only well-behaved names, and the tests check that expected files exist, not that nothing else was touched.',
  [S + f for f in ('storage/__init__.py', 'hwp5html.py', 'hwp5odt.py', 'proc/unpack.py', 'utils.py')],
  [('extraction of stored names to paths', S + 'storage/__init__.py unpack'), ('replacement of the output directory', S + 'hwp5html.py open_dir'),
   ('default output names', S + 'hwp5odt.py replace_ext, proc/unpack.py')],
  observe=('every mutating system call', 'the directory tree around the output', 'input file contents'))
p('C04', 'Decoded streams read the same however the reads are split',
  'The bytes obtained from any decoded stream (decompressed, decrypted, transcoded or generated) are the same for every sequence of read sizes and for every way the underlying source splits its deliveries. '
  'A read never returns more than was asked for, and returns nothing before the end of the data only if nothing was asked for.',
  ['inputs', 'schedules'],
  'every decoder and virtual stream, every sequence of read sizes (including 0, 1, buffer boundaries and read-all), every pattern of short reads of the source',
  'Tests read streams in one call or a few fixed sizes over small in-memory sources that never return short.',
  [S + f for f in ('compressed.py', 'zlib_raw_codec.py', 'utils.py', 'distdoc.py', 'filestructure.py', 'recordstream.py', 'storage/ole.py', 'plat/olefileio.py', 'plat/gir_gsf.py')],
  [('incremental inflate readers', S + 'zlib_raw_codec.py StreamReader, compressed.py'), ('generator to file adapters', S + 'utils.py GeneratorReader, GeneratorTextReader'),
   ('record reader', S + 'recordstream.py read_record'), ('preview text transcoding', S + 'filestructure.py PreviewText')],
  state=[('buffer', 'decoded bytes not yet handed out', S + 'zlib_raw_codec.py, utils.py')],
  observe=('return values of read()',))
p('C05', 'Truncated or failing data is reported, never taken for a clean end',
  'Iterating the records of a stream yields exactly the complete records that precede the fault, in order and unaltered, and then raises an error if the data ends inside a record or the source fails; what is derived from records (models, JSON, XML) is an unaltered beginning of the full result, followed by the error. '
  'Only data that ends exactly at a record boundary ends the iteration normally; nothing is made up, skipped or repeated. Summary information that ends inside one of its values is reported as well.',
  ['inputs', 'fault_sequences'],
  'every record stream, every truncation offset, every read of the source failing or returning short, every record form (empty payload, extended size)',
  'Tests read intact streams; no fixture ends inside a record header, an extended size or a payload, and no source fails.',
  [S + f for f in ('recordstream.py', 'dataio.py', 'binmodel/__init__.py', 'distdoc.py', 'compressed.py')],
  [('record framing', S + 'recordstream.py decode_record_header, read_record, read_records'), ('grouping by top-level record', S + 'recordstream.py group_records_by_toplevel'),
   ('model iteration', S + 'binmodel/__init__.py models')],
  observe=('records, models and exceptions delivered to the consumer',))
p('C06', 'Streams and iterations over one document do not disturb each other',
  'Opening a stream or virtual stream, or iterating records, models or XML, gives the same result each time, regardless of what else has been opened, read partially, abandoned or closed on the same document before or in between. '
  'Interleaving the steps of several readers of one document gives each reader what it would have got alone.',
  ['schedules', 'histories'],
  'every interleaving of open, partial read, iterate, abandon and close over all streams, virtual streams and views of one document, repeated opens included',
  'Each test uses a fresh document object, reads each stream once and to the end, in one order.',
  [S + f for f in ('filestructure.py', 'recordstream.py', 'binmodel/__init__.py', 'xmlmodel.py', 'storage/__init__.py', 'storage/ole.py', 'plat/olefileio.py', 'utils.py')],
  [('virtual streams', S + 'recordstream.py, binmodel, xmlmodel other_formats'), ('cached views', S + 'utils.py cached_property, filestructure.py'),
   ('shared underlying file', S + 'plat/olefileio.py')],
  state=[('file position of the shared container', 'moved by every open', S + 'plat/olefileio.py'), ('cached items', 'must not be exhausted by one consumer', S + 'filestructure.py')],
  observe=('bytes, records, models and events delivered to each reader',))
p('C07', 'Documents converted in concurrent threads come out as if converted alone',
  'When several threads of one process each open, read and convert their own documents, every thread obtains exactly the results a single-threaded run obtains, for every interleaving of their steps. '
  'This includes the first use of each type, stylesheet and backend by several threads at once.',
  ['schedules'],
  'every interleaving, at source-line granularity, of two or three threads parsing, listing and converting documents of equal or different versions in a fresh process',
  'No test starts a thread; type and stylesheet caches are always warm and single-user.',
  [S + f for f in ('bintype.py', 'binmodel/', 'dataio.py', 'xmlmodel.py', 'plat/', 'utils.py', 'importhelper.py')],
  [('compiled type definition caches', S + 'bintype.py get_compiled_typedef, get_compiled_typedef_with_version'), ('backend selection flags', S + 'plat/*.py is_enabled'),
   ('tag to model registry', S + 'binmodel/__init__.py'), ('lazy properties', S + 'utils.py cached_property')],
  state=[('typedef caches', 'filled on first use, shared by all threads', S + 'bintype.py')],
  observe=('results of each thread',))
p('C08', 'Output depends only on the document and the options',
  'The output and exit status of a command are the same for every clock, time zone, locale, hash seed, working directory, temporary name, directory order and process id, and regardless of what the same process converted before. '
  'Only the modification times recorded inside a package, the character encoding of text listings (which follows the locale) and the text of warnings may differ.',
  ['configurations', 'histories'],
  'every command on every document under randomly drawn environments, and library conversions after arbitrary histories of other conversions, failed ones included',
  'The tests run in one environment, with one hash seed and one clock, and compare fragments.',
  [S + f for f in ('bintype.py', 'xmlformat.py', 'xmlmodel.py', 'binmodel/', 'dataio.py', 'msoleprops.py', 'summaryinfo.py', 'hwp5odt.py', 'proc/')],
  [('serialisation of attribute dictionaries', S + 'xmlformat.py, recordstream.py, binmodel model_to_json'), ('date formatting', S + 'msoleprops.py, summaryinfo.py'),
   ('version dependent type caches', S + 'bintype.py')],
  observe=('stdout', 'output files', 'exit status'))
p('C09', 'After a transient failure, trying again gives the full result',
  'If an operation on an open document or a converter object fails because of a transient fault, repeating it on the same objects once the fault is gone gives exactly what it would have given had the fault never happened. '
  'Nothing wrong or partial is remembered, and other operations of the process are not affected.',
  ['fault_sequences', 'histories'],
  'every library operation, every fault position inside it (failing reads, opens, temporary files, tools, interrupts, allocations), any number of failed attempts before the retry',
  'Tests never retry anything, because nothing in them fails; caches filled by a failed attempt are never observed.',
  [S + f for f in ('utils.py', 'bintype.py', 'filestructure.py', 'binmodel/__init__.py', 'transforms/__init__.py', 'hwp5odt.py', 'hwp5html.py', 'plat/')],
  [('cached_property', S + 'utils.py'), ('typedef caches', S + 'bintype.py'), ('lazily compiled stylesheets and validators', S + 'hwp5odt.py, hwp5html.py'), ('backend flags', S + 'plat/*.py')],
  state=[('caches on documents, converters and modules', 'must only hold complete values', S + 'utils.py, bintype.py')],
  observe=('results of the retried operation',))
p('C10', 'Corrupted stored data cannot make parsing run away',
  'For every content of the stored streams, reading, parsing and converting a document ends, with a result or an error, within time and memory bounded by a moderate multiple of the size of its stored data; parsing and generating XML do not slow down out of proportion as the data grows. '
  'A damaged count, size, offset or nesting level is never trusted to the point of hanging, exhausting the memory or crashing the process.',
  ['inputs', 'fault_sequences'],
  'every document with bits of its stored streams flipped, counts and sizes replaced by extreme values, records dropped, repeated or deeply nested',
  'The fixtures are intact; one corrupted field is one of 2^32 values in thousands of places.',
  [S + f for f in ('bintype.py', 'dataio.py', 'binmodel/', 'recordstream.py', 'treeop.py', 'msoleprops.py', 'xmlmodel.py')],
  [('counted arrays', S + 'bintype.py, dataio.py X_ARRAY, N_ARRAY'), ('level based tree building', S + 'treeop.py'), ('property sets', S + 'msoleprops.py'), ('text chunk scanning', S + 'binmodel/ para text')],
  observe=('executed steps', 'peak memory', 'outcome'))
p('C11', 'Damage in one stream does not change what is read from the others',
  'When stored data of one stream is damaged, missing or unreadable, every other stream of the document is still listed and reads exactly as in the undamaged document, in any order of access and after any error. '
  'The damage shows only in results derived from the damaged stream.',
  ['inputs', 'fault_sequences', 'histories'],
  'every document, every stream damaged in every way (bytes, length, absence, failing sectors), every order of reading the others',
  'Tests open intact files only and never continue after an error.',
  [S + f for f in ('filestructure.py', 'storage/', 'plat/olefileio.py', 'compressed.py', 'distdoc.py', 'recordstream.py', 'binmodel/__init__.py')],
  [('per-stream conversion', S + 'filestructure.py ItemConversionStorage'), ('shared container state', S + 'plat/olefileio.py')],
  observe=('listing and contents of the undamaged streams',))
p('C12', 'Losing an optional component does not change the result',
  'Whichever of the optional components are present (OLE reader, XSLT processor, XML tool, cipher provider, validator, highlighter), a stream reads the same and a conversion gives an equivalent document, or the operation reports an error. '
  'A component that is missing, or fails when probed, is skipped in favour of the next one; it never leads to a silently different or empty result.',
  ['configurations', 'fault_sequences'],
  'every combination of missing components, for every command and document, including components that disappear or fail during the run',
  'The tests run with the components of one machine; other backends are tested alone on one tiny input, or skipped.',
  [S + 'plat/' + f for f in ('__init__.py', '_lxml.py', 'xsltproc.py', 'xmllint.py', 'olefileio.py', 'gir_gsf.py')] + [S + 'utils.py', S + 'hwp5odt.py', S + 'transforms/__init__.py'],
  [('backend selection', S + 'plat/__init__.py'), ('fall-backs', S + 'utils.py syntaxhighlight, output_thru_subprocess')],
  observe=('canonical form of the outputs', 'exit status'))
p('C13', 'An ODT package is complete and consistent, or not a package at all',
  'At every moment, after any failure, interrupt or crash during a conversion, the output path either holds no readable package or one that is complete: every part listed in its manifest is present with intact contents, and every part present is listed, together with all the embedded binary data of the document. '
  'A readable package equals the one an undisturbed conversion produces.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every document and backend, a crash after every write prefix, every failing, short or lost operation, with or without an earlier package at the path',
  'Tests build a package once on a working disk and do not look at it after a failure or a crash.',
  [S + 'hwp5odt.py', S + 'transforms/__init__.py', S + 'utils.py'],
  [('package writer', S + 'hwp5odt.py ODTPackage, open_odtpkg'), ('order of parts, manifest and central directory', S + 'hwp5odt.py ODTPackage.close'), ('binary data copy', S + 'hwp5odt.py transform_hwp5_to_package')],
  observe=('the output path after each crash point',))
p('C14', 'A long-lived process does not accumulate files, handles or memory',
  'Opening, reading, converting and closing documents any number of times, failed attempts included, leaves no additional open file, no temporary file, no child process and no ever-growing memory behind in the process. '
  'After a document is closed its file can be replaced or removed and no descriptor refers to it.',
  ['histories', 'fault_sequences'],
  'every history of library operations over documents good and bad, with faults at any point',
  'Each test is short, and nobody counts descriptors or memory between operations.',
  [S + f for f in ('filestructure.py', 'storage/', 'plat/olefileio.py', 'utils.py', 'xmlmodel.py', 'transforms/__init__.py', 'hwp5odt.py', 'bintype.py')],
  [('close() chain', S + 'storage/, plat/olefileio.py'), ('temporary files', S + 'utils.py'), ('caches keyed by version and type', S + 'bintype.py')],
  observe=('open descriptors', 'temporary directory', 'live objects'))
p('C15', 'Diagnostics never change the result',
  'The output and the exit status of a command are the same at every log level, with or without a log file, and when writing diagnostics is slow, fails or is impossible. '
  'Diagnostics go to the log file or to the standard error only, never into the output.',
  ['configurations', 'fault_sequences'],
  'every command and document at every log level, with every failing or short write to standard error or the log file',
  'Tests use the default log level and a working standard error.',
  [S + f for f in ('cli.py', 'hwp5txt.py', 'hwp5html.py', 'hwp5odt.py', 'hwp5proc.py', 'binmodel/__init__.py', 'bintype.py', 'dataio.py', 'xmlmodel.py')],
  [('logger set-up', S + 'cli.py init_logger'), ('debug statements on lazily evaluated data', S + 'bintype.py, binmodel/, xmlmodel.py, treeop.py')],
  observe=('stdout', 'output files', 'exit status'))
p('C16', 'Whatever was delivered before a failure is a prefix of the full output',
  'When a command fails, is interrupted, or is killed at any point, what has reached its standard output or each of its output files is a prefix of what the undisturbed run delivers there. '
  'Short, interrupted and repeated writes never duplicate, drop or reorder bytes. Seekable packages (.odt) are excepted.',
  ['crash_points', 'fault_sequences'],
  'every command that streams its output or extracts files, every kill point, every short, interrupted or failing write',
  'Tests look only at complete outputs of successful runs.',
  [S + f for f in ('utils.py', 'proc/', 'storage/__init__.py', 'xmlmodel.py', 'xmlformat.py', 'hwp5txt.py', 'hwp5html.py')],
  [('output destinations', S + 'utils.py make_open_dest_file, output_thru_subprocess'), ('extraction', S + 'storage/__init__.py unpack'), ('streaming serialisers', S + 'xmlformat.py, utils.py JsonObjects')],
  observe=('stdout and output files after the run',))
p('C17', 'Delivered XML is well formed and delivered JSON is valid, whatever is stored',
  'Every XML, XHTML or ODF document that a command or a library call delivers without reporting an error is well formed, and every JSON listing is valid JSON. '
  'This holds for every content of the stored streams: any characters in texts and names, damaged fields and structures, empty or missing records, and with either XSLT backend.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every document whose stored characters, fields, records and levels have been replaced or damaged, every XML, XHTML, ODF and JSON output form',
  'The fixtures hold ordinary text only; one unusual character in one of hundreds of places is not sampled, and validation is off or not looked at in the tests.',
  [S + f for f in ('xmlformat.py', 'xmlmodel.py', 'xmldump_flat.py', 'utils.py', 'treeop.py', 'binmodel/__init__.py', 'recordstream.py', 'hwp5odt.py', 'xsl/')],
  [('serialisation of XML events', S + 'xmlformat.py xmlevents_to_textchunks'), ('nesting of events', S + 'xmlmodel.py, treeop.py'), ('JSON arrays', S + 'utils.py generate_json_array')],
  observe=('every XML and JSON output', 'exit status'))
p('C18', 'The text of every paragraph appears in the output in reading order',
  'Converting an intact document to text, XHTML or ODT keeps the characters of every paragraph, complete and in reading order, including those in tables, headers, footers, notes and text boxes.',
  ['inputs'], 'every intact document', 'The tests compare a few fixtures with expected text.',
  [S + f for f in ('xmlmodel.py', 'xsl/', 'hwp5txt.py', 'binmodel/tagid51_para_text.py')],
  [('text chunks and character shapes', S + 'xmlmodel.py'), ('style sheets', S + 'xsl/')], observe=('outputs',))
p('C19', 'Every field is decoded as the format specification says',
  'For every record type and every format version, the fields of a model have the values that the specification assigns to the stored bytes, and bytes that it does not describe are kept as unparsed data.',
  ['inputs'], 'every record of every version', 'The tests sample a few records.',
  [S + 'binmodel/', S + 'bintype.py', S + 'dataio.py'], [('record definitions', S + 'binmodel/tagid*.py')], observe=('models',))
p('C20', 'The ODF and XHTML produced conform to their schemas and keep the formatting',
  'The ODF output is valid against the OpenDocument schema, and character, paragraph and page formatting, tables, lists and pictures of the document are expressed by equivalent styles and elements.',
  ['inputs'], 'every intact document', 'The tests look at single fixtures.',
  [S + 'xsl/', S + 'hwp5odt.py', S + 'hwp5html.py'], [('style sheets', S + 'xsl/odt/, ' + S + 'xsl/hwp5html.xsl')], observe=('outputs',))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
