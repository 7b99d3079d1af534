"""writes properties.jsonl (kept as a script so the text is reviewable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/avb/' + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
ALLCODE = ['file.py', 'core.py', 'ioctx.py', 'bin.py', 'trackgroups.py', 'components.py', 'essence.py', 'misc.py', 'attributes.py']

p('A01', 'A saved bin reopens with every value, reference and sharing intact',
  'Take any document, built through the API or opened and then edited by any history of attribute, list, dictionary and object edits, in which every value fits its on-disk field. After it is saved in little or big byte order and the file is opened again, every object reachable from the root has the same class, the same fields present, the same values, the same list orders and the same references (two places that shared one object still share it). This holds whichever order objects are loaded in and whenever unreferenced objects are garbage collected along the way.',
  ['histories', 'inputs', 'schedules'],
  'all object graphs over all supported classes and optional-field combinations, all edit histories, both byte orders, any lazy-load order and garbage-collection schedule',
  'The tests save a few hand-built bins and one real file, little-endian only apart from two cases, and mostly compare sizes or a handful of fields; no test covers edit histories or optional-field combinations.',
  ALLCODE, [('per-class read and write methods', 'src/avb/*.py'), ('object walk and renumbering on save', 'src/avb/core.py walk_references, src/avb/file.py AVBFile.write')],
  [('object graph', 'objects reachable from the root', 'src/avb/file.py AVBFile.content')], ['AVBFile.content after reopening', 'bytes of the saved file'])

p('A02', 'Opening a bin reads exactly what the bytes say, however they arrive',
  'For every well-formed file, in either byte order, with any on-disk object order and any subset of optional fields, every object that is read has exactly the class, fields, values and references that its stored bytes encode under the format. The result does not depend on the order in which objects are visited, on interleaved traversals, on buffer size, on how the underlying stream splits its reads, or on when the cache drops objects.',
  ['inputs', 'schedules'],
  'all well-formed files over all supported classes, all visiting orders, all interleavings of traversals, all garbage-collection points, path or stream input, all read-chunking and buffering schedules',
  'The tests check a few fields of fixed sample files read in one order from an ordinary disk file.',
  ALLCODE, [('lazy object loading', 'src/avb/file.py AVBFile.read_object'), ('field codecs', 'src/avb/ioctx.py')],
  [('object cache', 'weak map from index to loaded object', 'src/avb/file.py object_cache')], ['property values of each loaded object'])

p('A03', 'Re-saving an unedited bin loses nothing, however often it is repeated',
  'Opening any well-formed file and saving it without edits, in either byte order, produces a file that encodes the same objects with the same fields present (optional fields that were absent stay absent), the same values and the same sharing. Repeating load and save any number of times, alternating byte orders, never drifts: from the first rewrite in a given byte order on, every further rewrite in that order is identical byte for byte.',
  ['inputs', 'histories'],
  'all well-formed files, all sequences of load-and-save generations and byte orders',
  'The tests resave one sample file once and compare object bytes in one byte order; drift over generations and absent optional fields are not covered.',
  ALLCODE, [('symmetric read and write of each class', 'src/avb/*.py'), ('scaled decimal floats', 'src/avb/ioctx.py write_exp10_encoded_float')],
  observe=['bytes of each generation'])

p('A04', 'The accelerated reader and the pure Python reader load the same content',
  'For every well-formed file, opening it with the compiled reader enabled and opening it with it disabled expose the same objects with equal values for every field, the same fields present, and the same references. Saving either without edits, in either byte order, writes identical bytes, and editing either the same way gives the same result.',
  ['inputs', 'configurations', 'histories'],
  'all well-formed files over the classes the accelerator handles, all optional-field combinations, both configurations, any visiting order and garbage-collection schedule',
  'The tests run with whichever reader is installed and never compare the two on the same input.',
  ['_ext.pyx', '_ext_core.cpp', 'file.py', 'trackgroups.py', 'components.py', 'essence.py', 'attributes.py'],
  [('fast reader table', 'src/avb/_ext.pyx READERS')], observe=['property values under use_ext=True and use_ext=False', 'bytes saved from each'])

p('A05', 'Saving is repeatable and leaves the open document unchanged',
  'Saving the same document state always writes the same bytes: again to another path, after failed saves, after any part was loaded, dropped by the garbage collector and reloaded, or under another hash seed. A save never changes the open document: every value, reference and object identity read through it is the same before and after, in whichever byte order it was saved.',
  ['histories', 'schedules', 'fault_sequences'],
  'all documents, all histories of reads, traversals, collections, successful and failed saves between two saves, all hash seeds',
  'Each test saves a document once.',
  ['file.py', 'core.py'], [('renumbering kept apart from instance ids', 'src/avb/file.py ref_mapping'), ('object walk order', 'src/avb/core.py walk_references')],
  observe=['bytes of repeated saves', 'model dump before and after save'])

p('A06', 'Every file a save produces is structurally self-consistent',
  'Every file that a successful save writes, in the byte order asked for, has a header that names exactly the number of object records that follow and the root record, and each record has exactly the stated length, carries a known class and parses completely. Each object reachable from the root is written exactly once, after every object it refers to, nothing unreachable is written, and every stored reference is none or an earlier record; a document whose references form a cycle is refused.',
  ['histories', 'inputs', 'fault_sequences'],
  'all documents and edit histories (including removals that orphan objects), both byte orders, saves that follow earlier failed or successful saves',
  'The tests only reopen their outputs with the same library, which tolerates unreachable objects, forward references and header mismatches.',
  ['file.py', 'core.py', 'ioctx.py'], [('two-pass header patch', 'src/avb/file.py AVBFile.write'), ('post-order walk', 'src/avb/core.py walk_references')],
  observe=['bytes of the saved file, parsed by an independent decoder'])

p('B01', 'A save replaces its destination all-or-nothing, even across a crash',
  'While a document is being saved to a path and at every instant at which the process or machine may stop, or any write, flush, rename or close may fail, the destination holds either exactly its complete previous content (or is absent if it did not exist) or the complete new file, never a mixture, prefix or empty file. Whatever other files lie beside the destination are not touched.',
  ['crash_points', 'fault_sequences'],
  'all documents, all prior states of the destination, all crash points with any reordering or tearing of unsynchronised writes, and all single and multiple I/O faults during the save',
  'The tests save to a healthy disk and never interrupt a save.',
  ['file.py'], [('save path', 'src/avb/file.py AVBFile.write')], [('destination file', 'the last good copy of the user\'s bin', 'file system')],
  ['bytes at the destination path after a simulated crash or failed save'])

p('B02', 'A failed save is reported, leaves no debris, and a retry succeeds',
  'Whenever a save cannot complete, because a storage operation fails or is interrupted at any point or because some object cannot be encoded, the call raises; it never returns normally unless the complete file is at the destination. After the failure no file handle stays open, no stray file is left beside the destination, the open document is unchanged, and once the cause is gone the same save succeeds with the same bytes a first undisturbed save would have written.',
  ['fault_sequences', 'histories'],
  'all documents, all positions and kinds of storage faults (error, full disk, short write, failing flush, close or rename) and unencodable objects anywhere in the graph, followed by any number of retries',
  'No test injects a storage error or retries a save.',
  ['file.py', 'core.py', 'ioctx.py'], [('save context cleanup', 'src/avb/file.py AVBFile.write'), ('short writes handled by buffered output', 'io.open in AVBFile.write')],
  observe=['exception from write', 'open handles and directory listing', 'bytes of the retried save'])

p('B03', 'Saving over the file a document was opened from loses nothing',
  'A document opened from a path can be saved back to that same path at any moment, with any part of it loaded or not yet loaded and any edits pending: the saved file holds the complete edited document. If that save fails or the machine stops, the path still holds the complete old or new file and the open document can still be read, and after a successful save the document remains readable, editable and savable.',
  ['histories', 'crash_points', 'fault_sequences'],
  'all documents, all loaded/unloaded states, all edits, all faults and crash points, repeated save-in-place cycles on one open document',
  'The tests always save to a new path.',
  ['file.py'], [('save path', 'src/avb/file.py AVBFile.write'), ('lazy reads from the open source', 'src/avb/file.py AVBFile.read_object')],
  observe=['bytes at the path', 'values read from the still-open document'])

p('C01', 'Storage errors and short reads while reading never yield wrong content',
  'If the underlying stream raises an error, returns fewer bytes than asked, or reports end of file early at any read or seek, then the operation either raises an ordinary exception or returns exactly the content that is stored; no object is ever exposed with missing, zero-filled or shifted values. Once the stream works again the same operation succeeds with the right content: a failed load leaves nothing behind in the document.',
  ['fault_sequences', 'schedules'],
  'all documents, all positions and kinds of read faults while opening, traversing, copying or saving, all subsequent retries',
  'The tests read from healthy disk files only.',
  ['file.py', 'core.py', 'utils.py'], [('length check after reading a record', 'src/avb/file.py AVBFile.read_object'), ('cache filled only after success', 'src/avb/file.py AVBFile.read_object')],
  [('reading flag', 'suppresses modification tracking while a record is parsed', 'src/avb/file.py AVBFile.reading')], ['values or exception of each read'])

p('C02', 'Corrupt bytes fail with an ordinary error, promptly, and stay contained',
  'Opening or reading a file in which any bytes were altered, removed or inserted ends within time and memory proportional to the file: it returns or raises an ordinary exception, without hanging, exhausting memory or crashing the process. An object whose own record is damaged fails or reads as what its damaged bytes say under the format, never as anything else, and an object that was refused stays refused. Every object whose record, and the record headers that locate it, are unaltered still reads with exactly its stored values, before and after any failure.',
  ['inputs', 'fault_sequences'],
  'all well-formed files with any sequence of flipped, overwritten, zeroed, deleted or inserted bytes, any visiting order',
  'The tests contain no damaged input.',
  ['file.py', 'core.py', 'ioctx.py', 'attributes.py', 'trackgroups.py', 'components.py', 'bin.py'],
  [('per-record parsing from a private buffer', 'src/avb/file.py AVBFile.read_object'), ('tag and count checks', 'src/avb/ioctx.py read_assert_tag')],
  observe=['exceptions, step count and memory of each read', 'values of undamaged objects'])

p('C03', 'A truncated file is never accepted as complete',
  'If a file is cut off at any byte, as a copy that was interrupted leaves it, then opening it raises, or reading each object whose record is not entirely present raises. No traversal, copy or re-save of such a file completes with content missing or invented.',
  ['crash_points', 'inputs'],
  'all well-formed files with any object order, all truncation points, all ways of visiting the objects',
  'The tests contain no truncated input.',
  ['file.py'], [('object table scan', 'src/avb/file.py AVBFile.__init__'), ('record length check', 'src/avb/file.py AVBFile.read_object')],
  observe=['exception or content of a full traversal'])

p('C04', 'File handles are released exactly when they should be',
  'A file the library opened itself is closed when opening fails for any reason, when the document is closed and when its context ends, with or without an exception, and every handle a save opens is closed when the save returns or raises. A document that is open and in use keeps its own handle usable, and a stream supplied by the caller is closed by closing the document but not by a failing open.',
  ['fault_sequences', 'histories'],
  'all failing and succeeding opens (bad magic, bad header, bad root, I/O errors), closes, context exits and saves, in any order over several documents',
  'The tests never fail an open or look at handles.',
  ['file.py'], [('close and context manager', 'src/avb/file.py AVBFile.close, __exit__')], observe=['open handles of the simulated file system after each step'])

p('C05', 'Opening, saving and searching take steps in proportion to the document',
  'For every document, however deeply its objects are nested and however often they are shared, and after every history of edits, saves and reopens, opening it, loading any of its objects, listing its records or the objects of a class, listing or looking up its mobs, listing the mobs a mob depends on, and saving it each end within a number of steps bounded by a small multiple of what they concern: the bytes, records, references and list entries of the document (for a dependency listing, times the mobs and clips involved), never the number of paths through it. They do so at any nesting depth, without running out of stack, and also when storage fails, ends early or delivers small pieces on the way, and the same operation then succeeds on healthy storage. (Copies, and the lengths of sequences within sequences, follow each path and are not covered.)',
  ['inputs', 'histories', 'fault_sequences'],
  'all acyclic object graphs of any depth, width and sharing, all edit, save and reopen histories, both readers and byte orders, reads that fail or come in small pieces',
  'The tests use small flat documents, where the number of paths, the nesting and the steps per object do not show.',
  ['file.py', 'core.py', 'bin.py', 'trackgroups.py', 'utils.py', 'attributes.py'],
  [('object walk on save and dependency listings', 'src/avb/core.py walk_references'), ('lazy references', 'src/avb/utils.py AVBObjectRef'),
   ('record table', 'src/avb/file.py AVBFile.read_header, read_chunk'), ('mob index', 'src/avb/bin.py find_by_mob_id')],
  [('object positions', 'where each record is', 'src/avb/file.py object_positions')],
  observe=['calls made in the package per operation', 'outcome of each operation', 'bytes of the saved file'])

p('D01', 'No edit is lost before it is saved',
  'Every edit made to a document, whether by assigning a field, changing an attribute dictionary or reference list, or changing a nested element such as a track or bin item, is visible to later reads and is in the next saved file. It makes no difference whether the program still holds a reference to the edited object or when the garbage collector runs.',
  ['histories', 'schedules'],
  'all edit histories over opened and new documents, all points at which references are dropped and garbage is collected',
  'The tests hold references to everything they edit and never force a collection.',
  ['core.py', 'file.py', 'attributes.py'], [('modified objects are held strongly', 'src/avb/file.py AVBFile.add_modified'), ('attribute assignment marks the object', 'src/avb/core.py AVBObject.__setattr__')],
  [('modified objects', 'strong references to edited objects', 'src/avb/file.py modified_objects'), ('object cache', 'weak references to loaded objects', 'src/avb/file.py object_cache')],
  ['values read after collection', 'bytes of the next save'])

p('D02', 'One stored object is one live object',
  'While any reference to a loaded object is alive, every way of reaching that object (fields, lists, attributes, iteration by class, direct index) yields the same instance, and an edit through one path is seen through all others. Objects that differ in the file are never merged, and an object that was dropped and is loaded again has the same content.',
  ['histories', 'schedules'],
  'all documents with shared objects, all interleavings of access paths, failed loads and garbage collections',
  'The tests reach each object along one path only.',
  ['file.py', 'core.py', 'utils.py'], [('object cache', 'src/avb/file.py AVBFile.read_object'), ('references resolve through the document', 'src/avb/utils.py AVBObjectRef')],
  observe=['identity and content of objects reached along different paths'])

p('D03', 'Reference lists behave as lists of objects',
  'A list of objects in a document, such as the components of a sequence or the entries of a parameter list, obeys list semantics under every sequence of list operations: append, extend, insert, remove, pop, delete, assign, clear, sort, reverse, index, slice, iterate, length and membership give what the same operations give on a plain list of those objects, whether entries are loaded yet or not. What the list shows is what the next save stores.',
  ['histories', 'schedules'],
  'all operation sequences on lists of new and of opened documents, with lazy loading, failed loads and garbage collection in between',
  'The tests only append and iterate.',
  ['core.py', 'components.py', 'attributes.py'], [('list subclass with lazy references', 'src/avb/core.py AVBRefList')], observe=['list contents after each operation', 'bytes of the next save'])

p('D04', 'Attribute collections behave as ordered dictionaries',
  'An attribute collection obeys ordered-dictionary semantics under every sequence of set, get, delete, pop, clear, update, default lookup, iteration, membership and length operations, whether its object values are loaded yet or not. Entries keep their order, type (integer, text, object, raw bytes) and value through save and reopen.',
  ['histories', 'schedules'],
  'all operation sequences on collections of new and of opened documents, with lazy loading and garbage collection in between, and save and reopen at any point',
  'The tests set a few entries and read them back once.',
  ['attributes.py', 'core.py'], [('ordered dictionary subclass', 'src/avb/attributes.py Attributes, src/avb/core.py AVBPropertyData')], observe=['collection contents after each operation', 'entries after reopening'])

p('D05', 'A copy into another document is complete and independent',
  'Copying an object into another document, or the same one, gives an object graph with equal content, belonging wholly to the destination. From then on, no edit to either side, nested containers included, is visible through the other, and the destination can be read and saved after the source is closed or fails.',
  ['histories', 'fault_sequences'],
  'all objects of all classes, all edit histories on both sides after the copy, source closed or failing after (or, with an error, during) the copy',
  'The tests copy two sample files and compare a few fields; they never edit afterwards.',
  ['core.py', 'attributes.py', 'components.py', 'trackgroups.py', 'bin.py', 'essence.py', 'misc.py'], [('recursive copy', 'src/avb/core.py AVBObject.copy, AVBRefList.copy')],
  observe=['dumps of source and copy after each edit', 'bytes of both saved files'])

p('D06', 'Looking up a mob by id agrees with the bin\'s current content',
  'At every moment, looking up a mob id in a bin returns a mob that is in the bin and has that id, or nothing when there is none, and the category iterators (all, top-level, composition, master mobs) and a clip\'s source mob and source track yield exactly the matching mobs in bin order. This stays true through any history of adding, removing, replacing, renaming and re-identifying mobs.',
  ['histories', 'schedules'],
  'all histories of lookups and bin edits in any interleaving, with lazy loading and garbage collection',
  'The tests look a mob up only in bins that no longer change.',
  ['bin.py', 'components.py'], [('mob id index', 'src/avb/bin.py Bin.find_by_mob_id, add_mob')], [('mob index', 'map from mob id to mob', 'src/avb/bin.py Bin._mob_dict')], ['result of each lookup and iterator'])

p('D07', 'Documents and objects do not share state',
  'Editing one document or one object never changes another document or object, including values that were never assigned but come from defaults, and every object created or loaded in a document has its own identity number, distinct from all others of that document. Any number of documents, open at once with their operations interleaved, each behave exactly as if they were alone.',
  ['histories', 'schedules', 'configurations'],
  'all interleavings of creations, in-place edits, loads, failed loads, copies and saves over several documents and several objects of every class',
  'The tests use one or two documents and never edit default values in place.',
  ['core.py', 'bin.py', 'essence.py', 'file.py', 'utils.py'], [('per-document factory and counters', 'src/avb/file.py AVBFactory'), ('property defaults', 'src/avb/core.py AVBObject.__init__')],
  observe=['dumps of the other documents and objects', 'instance ids'])

p('D08', 'An object of another document is refused, not silently stored',
  'A save whose graph reaches, by any kind of reference, an object that belongs to a different document raises, without touching the destination or either document. After the foreign reference is removed or replaced by a copy, the save succeeds.',
  ['histories', 'fault_sequences'],
  'all positions in the graph and kinds of reference slots, foreign objects from opened, new, or closed documents, before and after earlier saves of either document',
  'One test inserts one foreign object in one place.',
  ['file.py', 'core.py'], [('owner check on each object written', 'src/avb/file.py AVBFile.write_object')], observe=['exception from write', 'destination bytes', 'later save'])

p('D09', 'Dependency traversal ends and lists each needed mob once, sources first',
  'For any bin, including one whose mobs refer to each other in cycles or to mobs it lacks, listing the mobs a mob depends on ends within steps bounded by the size of the bin and yields exactly the mobs reachable through source references, each once and never the mob itself. Where references are acyclic every mob comes after all the mobs it depends on.',
  ['inputs', 'histories', 'schedules'],
  'all reference graphs between mobs, edits between traversals, interleaved traversals, lazy loading and garbage collection while a traversal is suspended',
  'The tests traverse one acyclic sample.',
  ['trackgroups.py', 'components.py', 'bin.py'], [('depth-first walk with explicit stack', 'src/avb/trackgroups.py TrackGroup.dependant_mobs'), ('source mob resolution', 'src/avb/components.py SourceClip.mob')],
  observe=['sequence of yielded mobs', 'steps taken'])

p('D10', "Timeline answers follow the sequence's current content",
  'At every moment, the length of a sequence, the start of each of its components, and the component at or nearest before a position agree with the running sum of the lengths its components have right then, transitions overlapping their neighbours and nested sequences counting with their own current length. This holds through any history of changing lengths, adding, removing, moving and sharing components, whether components are loaded yet or not, and for iterations over the positions that are interleaved, suspended while objects are dropped, and resumed. A question asked while reading fails is answered rightly or raises, and is answered rightly when asked again.',
  ['histories', 'schedules', 'fault_sequences'],
  'all histories of edits of sequences, nested sequences and shared components, with questions, suspended iterations, lazy loading, garbage collection, failing reads and saves and reopens in between',
  'The tests ask a few positions of one sequence that never changes and is fully loaded.',
  ['components.py', 'core.py'], [('position walk', 'src/avb/components.py Sequence.positions, nearest_index_at_time'), ('length', 'src/avb/components.py Sequence.length')],
  observe=['Sequence.length, positions, nearest_index_at_time, nearest_component_at_time after each step'])

p('D11', 'Keyframed values follow the control points currently in the clip',
  'At every moment, the value of a keyframe curve at a time, its integral over a range and the nearest keyframe are those of the control points, handles and curve kind the clip has right then: the curve passes through its control points (whose times are distinct and ascending), is constant outside them, and follows the selected kind (constant, linear, Bezier, cubic) in between. This holds through any history of adding, removing, moving and changing control points and their properties in place, whether or not they are loaded yet. A question asked while reading fails is answered rightly or raises, and is answered rightly when asked again.',
  ['histories', 'schedules', 'fault_sequences'],
  'all curves with ascending control points, all histories of edits of keyframes, handles and kinds, with questions, lazy loading, garbage collection, failing reads and saves and reopens in between',
  'The tests evaluate two fixed curves that never change.',
  ['components.py', 'interpolation.py', 'core.py'], [('curve evaluation', 'src/avb/components.py ParamClip.value_at, integrate; src/avb/interpolation.py'), ('handles from point properties', 'src/avb/components.py ParamControlPoint.tangents')],
  observe=['ParamClip.value_at, integrate, nearest_index, control point times, tangents and names after each step'])

p('D12', 'A mob id is the same id in every form, edit, lookup and save',
  'A mob id set, read or changed through any of its forms (text in its usual spellings, integer, bytes, single fields, dictionary, material number), whether kept by the program or belonging to an object of a document, shows the same 32 bytes in every other form, when compared, hashed, sorted and looked up in the bin, and after the document is dropped, loaded again, saved and reopened. Text that is no mob id is refused and leaves the id as it was. Ids whose text is also the text of another id (byte-swapped material numbers) are excepted.',
  ['histories', 'schedules', 'fault_sequences'],
  'all ids, all histories of changes through all forms (in place as well) of ids of mobs and clips and of ids kept by the program, malformed texts at any point, with lazy loading, garbage collection, failing reads and saves and reopens in between',
  'The tests convert a few ids once and never change one in place or offer malformed text.',
  ['mobid.py', 'ioctx.py', 'bin.py', 'trackgroups.py', 'components.py'], [('text form', 'src/avb/mobid.py MobID.urn'), ('byte form', 'src/avb/mobid.py MobID.bytes_le'), ('stored form', 'src/avb/ioctx.py read_mob_id, write_mob_id')],
  observe=['every form of each id after each step', 'Bin.find_by_mob_id', 'stored bytes'])

p('E01', 'Timestamps survive saving under every clock and time zone',
  'The creation, modification and last-save times in a file denote the same instants after opening and saving it, whatever the local time zone and its daylight-saving transitions, and a time the program sets is read back as the same local time. New documents and mobs carry the time the clock showed when they were made, to the second.',
  ['inputs', 'configurations', 'schedules'],
  'all 32-bit timestamps, all time zones with and without daylight saving (ambiguous and skipped local times included), clocks that are behind, ahead, frozen or jumping',
  'The tests run in one time zone at the current time.',
  ['ioctx.py', 'file.py', 'trackgroups.py'], [('local-time conversion', 'src/avb/ioctx.py read_datetime, write_datetime')], [('last save', 'header time', 'src/avb/file.py AVBFile.last_save')], ['stored 32-bit values', 'datetime values exposed'])

p('E02', 'Generated identities are unique whatever the clock or random state',
  'Identifiers that the library generates for new mobs and bins never collide with each other, and do not depend on the clock, on the state of the shared pseudo-random generator, or on how many documents, objects or simulated processes create them at the same instant. Each generated identifier is well formed and survives save and reopen.',
  ['schedules', 'histories', 'configurations'],
  'all interleavings of creations over several documents and simulated processes, frozen or repeating clocks, reseeded generators',
  'The tests create a handful of ids in one process.',
  ['mobid.py', 'utils.py', 'trackgroups.py', 'bin.py'], [('id generation from the system entropy source', 'src/avb/mobid.py MobID.new, src/avb/utils.py generate_uid')], observe=['generated mob ids and bin ids'])

p('F01', 'Separate documents can be used from separate threads',
  'When several threads each work on documents of their own (opening, reading, editing, copying, saving), every operation of every thread has exactly the outcome and every saved file exactly the bytes that the same thread\'s work has when run alone. This holds for every interleaving of the threads.',
  ['schedules'],
  'all interleavings of the threads at line granularity, all mixes of operations and byte orders',
  'No test uses threads.',
  ['file.py', 'core.py', 'ioctx.py', 'utils.py'], [('all mutable state hangs off the document', 'src/avb/file.py AVBFile')], observe=['results and saved bytes of each thread'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        assert len(r['title']) <= 80, r['title']
        f.write(json.dumps(r) + '\n')
print(len(P))
