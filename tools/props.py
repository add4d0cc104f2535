# -*- coding: utf-8 -*-
NOTE = ('Decides the stated rule on every path of the functions involved, helpers included, for all inputs. Loops are summarised; '
        'library code is trusted to behave as documented. ')
WS = ['ebu_tt_live/twisted/websocket.py', 'ebu_tt_live/carriage/websocket.py', 'ebu_tt_live/adapters/document_data.py',
      'ebu_tt_live/twisted/node.py']
NODE = ['ebu_tt_live/node/base.py', 'ebu_tt_live/node/distributing.py', 'ebu_tt_live/node/delay.py',
        'ebu_tt_live/node/deduplicator.py', 'ebu_tt_live/node/handover.py', 'ebu_tt_live/node/encoder.py',
        'ebu_tt_live/node/consumer.py']
PROPS = [
 dict(id='C01', title='WebSocket connections carry data only in the direction of their role',
  statement='''Live subtitle payloads flow only in the direction agreed for a WebSocket connection: a server hands payloads to its
  consumer only from connections opened to publish and sends payloads only on connections opened to subscribe, and a client the
  other way round. Data travelling the wrong way is not processed and the connection is dropped. A connection whose path does not
  give exactly a sequence identifier followed by the action "publish" or "subscribe" is dropped.''',
  over=['inputs', 'histories'], forall='every connection path, every message at any time, on server and client',
  why='''The tests open a few well-formed connections; they do not send data against the role or try the other malformed paths on
  both ends.''',
  files=WS[:1], mech=[('role test before handing over or sending', 'twisted/websocket.py onMessage, sendSequenceMessage'),
                      ('action validation', 'twisted/websocket.py action setter, onOpen')],
  observe=['consumer write', 'websocket sendMessage', 'dropConnection'],
  note=NOTE + 'The path syntax accepted by the URL library is not analysed.'),
 dict(id='C02', title='A WebSocket connection only carries documents of its own sequence',
  statement='''A payload published for a sequence is sent to every subscriber of that sequence and to no subscriber of another one.
  A received payload is labelled with the sequence identifier of the connection it arrived on, unchanged up to the point where it is
  parsed; a document or live message whose own identifier differs is rejected and its connection dropped.''',
  over=['inputs', 'histories'], forall='every set of connections and every published or received payload',
  why='The tests use one connection and matching identifiers; mixed sequences and mismatching documents are not sampled.',
  files=WS, mech=[('sequence test before sending', 'twisted/websocket.py sendSequenceMessage'),
                  ('label on received payloads', 'twisted/websocket.py onMessage -> twisted/node.py -> carriage/websocket.py'),
                  ('comparison of the label with the parsed document', 'adapters/document_data.py XMLtoEBUTT3Adapter')],
  note=NOTE + 'Percent-encoding of identifiers in URLs is trusted to the standard library.'),
 dict(id='C03', title='WebSocket connections are served exactly while they are open',
  statement='''An opened connection is registered with the producer or consumer that serves its role, or dropped when there is none;
  a lost connection is removed again, and losing a connection that was never registered is harmless. Every payload goes to all
  registered connections and no other. A producer or consumer already attached to a server is never silently replaced, and removing
  a producer stops it.''',
  over=['histories', 'fault_sequences'], forall='every order of opening, rejecting and losing connections and emitting payloads',
  why='The tests open and close one connection in order; loss of rejected connections and several connections are not sampled.',
  files=WS[:1] + WS[3:], mech=[('registration', 'twisted/websocket.py register, unregister, connectionLost'),
                           ('broadcast loop', 'twisted/node.py / websocket.py push producer')],
  note=NOTE + 'Delivery by the network library is not analysed.'),
 dict(id='C04', title='Each received document is processed once',
  statement='''A node that forwards documents (distributor, retiming delay, deduplicator, handover) emits at most one output for each
  sequence identifier and number it receives: a document already seen in the same sequence is ignored, however it arrives and also
  out of order, and a document not seen before is never taken for a duplicate. At least the last 100 numbers of every sequence are
  remembered, separately for each node and each sequence.''',
  over=['histories'], forall='every order and repetition of received documents of any number of sequences',
  why='Tests repeat a document once; they cannot enumerate arrival orders, interleaved sequences and identities.',
  files=NODE[:5], mech=[('duplicate test', 'node/base.py check_if_document_seen'), ('guarded emission', 'process_document of the nodes')],
  note=NOTE),
 dict(id='C05', title='Producing nodes keep their output sequence consistent',
  statement='''Documents leaving a retiming delay, deduplicator, handover or resequencing node carry the sequence identifier the node
  was configured with, and the numbers given out by handover and resequencer are consecutive from 1 with one number per emitted document.
  Retiming delay and deduplicator reject a document that already carries their own output identifier. Retiming delay, deduplicator,
  encoder, consumer and resequencer accept a single input sequence: a document of a second one is rejected before it has any effect.''',
  over=['histories', 'inputs'], forall='every history of received documents of any sequences',
  why='Tests feed short histories of one sequence; second sequences, feedback loops and gaps after ignored documents are not sampled.',
  files=NODE, mech=[('identity of outputs', 'process_document of the nodes, convert_next_segment'),
                    ('single input', 'node/base.py limit_sequence_to_one')],
  note=NOTE + 'The sequence number of the retiming delay and deduplicator is the input number by design.'),
 dict(id='C06', title='Handover selects exactly the winning author',
  statement='''The handover node emits a document exactly when it is new, belongs to the authors group of the node, carries a control
  token, and either its token is greater than the current one (or none is set yet) or it comes from the currently selected sequence.
  The token of an emitted document becomes the current one, a greater token makes its sequence the selected one, and the output names
  the sequence it was taken from. An ignored document changes nothing.''',
  over=['histories', 'inputs'], forall='every history of documents of any sequences, groups and tokens',
  why='The tests contain some hand-written token histories; the condition is a combination of five facts over any history.',
  files=['ebu_tt_live/node/handover.py'], mech=[('selection', 'node/handover.py process_document')],
  note=NOTE + 'Token comparison is the numeric comparison of the parsed attribute.'),

 dict(id='C07', title='Documents, messages and their details are forwarded unaltered',
  statement="""Components that only pass data on (distributor, buffer delay, carriages, adapters) hand on exactly the document, payload
  or live message they received, once, with the sequence identifier, sequence number, time base, clock mode and availability time of
  that document; a distributor sends the XML it received rather than a new serialization. The XML that was received is never sent along
  with a document that has been changed or converted. Live messages pass unchanged through the nodes that support them.""",
  over=['inputs', 'histories'], forall='every document or message with every combination of details, through every pass-on component',
  why='The tests check single hops with one set of details; a detail dropped or stale XML on one of the paths stays unseen.',
  files=['ebu_tt_live/node/distributing.py', 'ebu_tt_live/node/delay.py', 'ebu_tt_live/carriage/direct.py',
         'ebu_tt_live/carriage/websocket.py', 'ebu_tt_live/adapters/node_carriage.py', 'ebu_tt_live/adapters/document_data.py',
         'ebu_tt_live/twisted/node.py', 'ebu_tt_live/node/deduplicator.py', 'ebu_tt_live/node/handover.py', 'ebu_tt_live/node/encoder.py'],
  mech=[('emission of received XML', 'node/distributing.py'), ('conversion chain', 'adapters/node_carriage.py convert_data'),
        ('document/XML adapters', 'adapters/document_data.py')],
  note=NOTE),
 dict(id='C25', title='Buffer delays add up and are honoured',
  statement="""A buffer delay node passes everything on with its configured delay added to any delay the data already carries, zero
  included. The component that sends the data sends it after exactly that delay, once, and sends data without a delay immediately.""",
  over=['inputs', 'histories'], forall='every chain of buffer delays and every delayed or undelayed item',
  why='The tests use one delay node and a mocked sender; chains and the sending component are not combined.',
  files=['ebu_tt_live/node/delay.py', 'ebu_tt_live/carriage/websocket.py', 'ebu_tt_live/twisted/websocket.py', 'ebu_tt_live/twisted/node.py'],
  mech=[('sum of delays', 'node/delay.py BufferDelayNode'), ('deferred sending', 'twisted/websocket.py emit_data')],
  note=NOTE + 'The accuracy of the scheduler of the network library is not analysed.'),
 dict(id='C29', title='Document and message details are the attributes of their XML',
  statement="""Every detail an application reads from a document (identifiers, number, language, time base, clock mode, authors group
  data) is the attribute of its current XML tree, writing one changes that attribute, and the serialization is that of the current tree.
  A new document carries the details it was created with. A live message keeps its sequence identifier, sender, recipients and payload
  from parsing to serialization.""",
  over=['inputs'], forall='every document or message and every accessor',
  why='Tests read a few accessors of a few documents; a cached or mixed-up attribute shows only for particular combinations.',
  files=['ebu_tt_live/documents/ebutt3.py'], mech=[('accessors', 'documents/ebutt3.py properties'), ('construction', 'documents/ebutt3.py __init__')],
  note=NOTE + 'That the XML binding library writes every attribute is trusted.'),
 dict(id='C08', title='A document is validated in its final state before it is used',
  statement="""A document handed out by its constructor, by parsing or by a node has been validated, schema rules before semantic rules,
  after the last change made to its content or availability time, and failed validation is raised to the caller. Every validation starts
  with an empty timeline and uses the current availability time (zero when there is none); afterwards the computed begin and end of the
  document are those of its body, or both its availability time when it has no body. Setting the availability time revalidates.""",
  over=['inputs', 'histories'], forall='every document and every sequence of changes, availability times and validations',
  why='The tests validate freshly built documents; stale timings after a later change need a particular order of operations.',
  files=['ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/node/deduplicator.py', 'ebu_tt_live/node/delay.py', 'ebu_tt_live/node/producer.py'],
  mech=[('validation', 'documents/ebutt3.py EBUTT3Document.validate'), ('emission', 'process_document of the nodes')],
  note=NOTE),
 dict(id='C09', title='Element context during validation is scoped',
  statement="""While a document is validated, whatever an element adds to the inherited context (begin and end times, time offset, styles,
  current region) holds exactly for its descendants and is restored when the element is left, on every combination of attributes
  including zero times. Each validation starts from an empty context, an element with a region makes exactly that region current for
  itself and its descendants, and everything an element looks up in the context has been provided by then.""",
  over=['inputs'], forall='every tree of elements with every combination of timing, style and region attributes',
  why='A leaked or missing context entry shows only on a later sibling and only for particular attribute combinations.',
  files=['ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/bindings/validation/timing.py',
         'ebu_tt_live/bindings/validation/presentation.py', 'ebu_tt_live/bindings/validation/base.py'],
  mech=[('hooks around the children', 'bindings/__init__.py _semantic_before_traversal, _semantic_after_traversal'),
        ('timing context', 'bindings/validation/timing.py'), ('style and region context', 'bindings/validation/presentation.py')],
  note=NOTE),
 dict(id='C10', title='Computed begin and end times follow the timing model',
  statement="""After validation an element begins at the later of the availability time and its own begin counted from its parent's begin,
  without an own begin at its earliest child, and ends at its own end (the body also at its duration) limited by the ends of its
  ancestors, without one at its latest child, or stays open when a child does. Children that do not end after they begin are not
  counted. Every element that holds content is put on the document timeline exactly once, with its final times.""",
  over=['inputs'], forall='every element with every combination of begin, end, duration, availability time and children',
  why='Tests fix a few dozen trees; zero times, equal times, open children and late availability combine in far more ways.',
  files=['ebu_tt_live/bindings/validation/timing.py', 'ebu_tt_live/bindings/__init__.py'],
  mech=[('computed times', 'bindings/validation/timing.py TimingValidationMixin, BodyTimingValidationMixin'),
        ('timeline', 'bindings/__init__.py _semantic_timeset, add_to_timeline')],
  note=NOTE + 'That a document sequence activates at most one document at a time is not part of this check.'),
 dict(id='C11', title='Times keep their value and notation; retiming shifts each once',
  statement="""A time expression has the value its text says in hours, minutes, seconds and fractions or in its unit, is written
  in the notation of the time base it was validated for, and an expression of another notation is rejected. The retiming delay moves
  every begin and end that counts from the start of the document once by the same delay, gives the body a begin exactly when content
  would otherwise stay where it was, leaves times relative to a moved ancestor alone and computes the times of the document anew.""",
  over=['inputs'], forall='every time expression of every time base and every tree of timed elements',
  why='Tests sample a few times and trees; carries, fractions, zero times and mixed nesting are not enumerable.',
  files=['ebu_tt_live/bindings/_ebuttdt.py', 'ebu_tt_live/bindings/validation/timing.py', 'ebu_tt_live/bindings/__init__.py',
         'ebu_tt_live/node/delay.py'],
  mech=[('text to value and back', 'bindings/_ebuttdt.py timing types'), ('notation per time base', 'bindings/_ebuttdt.py, validation/timing.py'),
        ('retiming', 'node/delay.py RetimingDelayNode')],
  note=NOTE + 'Only arithmetic of constant factors is decided; SMPTE times are not implemented by the project.'),
 dict(id='C12', title='A sequence only takes documents that belong to it, ordered by number',
  statement="""A document joins a sequence only when it carries the sequence's identifier, time base and, for clock time, clock mode,
  has a number nobody in the sequence has and does not contradict the authors group; otherwise it is rejected and the sequence is
  unchanged. The last number is the highest of the sequence and documents created in it are numbered on from there with the
  sequence's own details, as a sequence created from a document takes over that document's details. A consumer puts every received
  document into its sequence, stamped with its clock's time when it carries no availability time.""".replace('. A consumer', '; a consumer'),
  over=['inputs', 'histories'], forall='every document offered to any sequence, in any order',
  why='Tests offer a handful of documents in order; partial mismatches, empty identifiers and number gaps are not sampled.',
  files=['ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/node/consumer.py'],
  mech=[('admission', 'documents/ebutt3.py EBUTT3DocumentSequence compatibility checks'),
        ('numbering', 'documents/ebutt3.py add_document, new_document, fork'),
        ('consumption', 'node/consumer.py SimpleConsumer, ReSequencer')],
  note=NOTE + 'The sorted collections are trusted to keep their order.'),
 dict(id='C32', title='At most one document of a sequence is active at any time',
  statement="""Whatever the order in which documents arrive, a document is discarded when one with a higher number begins no later,
  is cut off at the begin of the next one with a higher number, removes the lower-numbered ones that begin at or after it and ends the
  one active at its begin. The resolved begin and end times and the discarded state reported for a document are those. Dropping old
  documents removes every other document begun by then together with all its events.""",
  over=['histories', 'schedules'], forall='every order of arrival and every overlap of activation periods',
  why='Tests feed a few arrangements in ascending order; out-of-order arrivals with gaps, ties and open ends are not enumerated.',
  files=['ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/documents/ebutt3.py'],
  mech=[('timeline resolution', 'documents/ebutt3.py EBUTT3DocumentSequence insertion'),
        ('reported times', 'documents/ebutt3.py resolved_begin_time, resolved_end_time, discarded'),
        ('events', 'documents/ebutt3.py timeline and events')],
  note=NOTE + 'The rules are decided per insertion step from the ordering invariant; the sorted list is trusted.'),
 dict(id='C14', title='Times are read by the rules of the document they are in',
  statement="""While a document is read, each time value is taken as the kind of time its document's time base has: a clock time in time base clock, a media time in time base
  media, and a value that fits no kind allowed there is refused. What is noted for this belongs to one document and one thread: it is new for every document, is gone
  after it whether or not it could be read, and is never seen by other threads or outside reading. EBU-TT-D documents are read whatever prefix and encoding they use, and
  every type with rules of its own is the one the reader makes.""",
  over=['inputs', 'schedules', 'histories'], forall='every document, valid or not, every order of reading documents and every thread that reads one',
  why='Tests read documents one after the other in one thread; which type a value is read as depends on what was read before, and by whom.',
  files=['ebu_tt_live/bindings/pyxb_utils.py', 'ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/bindings/_ebuttdt.py', 'ebu_tt_live/bindings/validation/base.py',
         'ebu_tt_live/bindings/validation/timing.py', 'ebu_tt_live/documents/ebuttd.py'],
  mech=[('parsing context', 'bindings/pyxb_utils.py get_xml_parsing_context, xml_parsing_context'), ('readers', 'bindings/__init__.py CreateFromDocument, CreateFromDOM'),
        ('attribute hooks', 'bindings/validation/base.py SemanticValidationMixin._setAttribute, bindings/__init__.py _attr_en_pre and _attr_en_post'),
        ('choice of the type', 'bindings/_ebuttdt.py _TimedeltaBindingMixin._ConvertArguments_vx'), ('EBU-TT-D', 'documents/ebuttd.py EBUTTDDocument.create_from_xml')],
  note=NOTE + 'PyXB calls these hooks in document order and tries the members of a union in turn; that is trusted.'),
 dict(id='C15', title='Segments and merged documents are complete, self-contained copies',
  statement="""A segment of a document is made of copies: every element kept carries every attribute its original has, text and elements stay in
  order under the copy of their parent, and references to styles and regions name elements of the segment, so every style or region a kept
  element refers to, directly or through other styles, is kept as well and those only left out elements refer to are not. Identifiers are made unique to the document exactly when asked for.
  Splicing puts a copy of every child of the bodies, styles and regions of all documents, first to last, into one document with the
  sequence identifier and number asked for.""".replace('. Identifiers are', '; identifiers are'),
  over=['inputs'], forall='every document tree and every range or list of documents',
  why='Tests segment a few small documents; combinations of attributes, nesting and references are not enumerated.',
  files=['ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/documents/ebutt3_segmentation.py', 'ebu_tt_live/documents/ebutt3_splicer.py'],
  mech=[('copies', 'bindings/__init__.py _semantic_copy, __copy__'), ('segmenting', 'documents/ebutt3_segmentation.py EBUTT3Segmenter'),
        ('merging', 'bindings/__init__.py merge and documents/ebutt3_splicer.py')],
  note=NOTE + 'Metadata elements, which segments drop by design, are not covered.'),
 dict(id='C18', title='Conversion to EBU-TT-D keeps what EBU-TT-D can express',
  statement="""A document converted to EBU-TT-D keeps every element EBU-TT-D has, in order, with its text, identifiers and every attribute the
  EBU-TT-D schema shares: times are media times, named colours RGBA values and cell positions percentages, and elements EBU-TT-D does not have are
  left out. Missing required parts are filled with defaults. Font sizes become styles generated per document, shared only by elements of equal size
  and line height, all part of the result and overridden by nothing; encoder and adapter hand on exactly that document in the configured form.""",
  over=['inputs'], forall='every document and every media time zero',
  why='Tests convert a few documents; attributes, nesting, shared styles and missing parts are not enumerated.',
  files=['ebu_tt_live/bindings/converters/ebutt3_ebuttd.py', 'ebu_tt_live/node/encoder.py', 'ebu_tt_live/documents/converters.py',
         'ebu_tt_live/adapters/document_data.py', 'ebu_tt_live/bindings/_ebuttdt.py'],
  mech=[('element conversion', 'bindings/converters/ebutt3_ebuttd.py convert_*'), ('generated styles', '_fix_fontsize, _get_font_size_style'),
        ('use', 'node/encoder.py, documents/converters.py, adapters/document_data.py')],
  note=NOTE + 'The arithmetic of relative font sizes is not decided. Timing of body and div is a known finding.'),
 dict(id='C23', title='Components are connected only when their data types match',
  statement="""A node and a carriage mechanism are connected exactly when each has the interface the other needs and both declare the same data type,
  directly or through adapters leading from the one type to the other; otherwise the connection is refused with the compatibility error for the
  cause and neither side changes. A connected component reports its partner, and the partner knows it. The adapter found for two types is the one
  registered for exactly these, and hands on data of the type it declares.""",
  over=['inputs'], forall='every node, carriage mechanism, adapter and pair of data types',
  why='Tests connect a few pairs; refusal without change, given adapters and the remaining classes are not enumerated.',
  files=['ebu_tt_live/node/base.py', 'ebu_tt_live/carriage/base.py', 'ebu_tt_live/adapters/node_carriage.py', 'ebu_tt_live/adapters/base.py',
         'ebu_tt_live/adapters/document_data.py', 'ebu_tt_live/node/interface.py', 'ebu_tt_live/carriage/interface.py',
         'ebu_tt_live/carriage/websocket.py', 'ebu_tt_live/twisted/websocket.py', 'ebu_tt_live/utils.py'],
  mech=[('registration', 'register_producer_carriage, register_consumer_carriage, register_producer_node, register_consumer_node'),
        ('adapters', 'adapters/node_carriage.py _set_data_adapters and constructors, adapters/base.py registry')],
  note=NOTE + 'The inner links of a given chain of adapters are not compared by the code and not covered.'),
 dict(id='C28', title='Segments hold what is active in their range; consecutive ones leave no gap',
  statement="""A segment of a document holds exactly the elements active at some time of the requested range, with the computed times of its content clipped
  to the range and nothing for elements outside it. A segment of a sequence joins, in order of time, the parts of all documents active in the range, each
  only up to its own resolved end, and drops documents only when told to. The resequencer emits segments of the configured length, the first
  beginning when it was created and every other one where the one before ended.""",
  over=['inputs', 'histories'], forall='every document, sequence and requested range, open ends included',
  why='Tests cut some documents at some times; open ranges, zero times, boundaries and the order of documents are not enumerated.',
  files=['ebu_tt_live/bindings/validation/timing.py', 'ebu_tt_live/bindings/validation/content.py', 'ebu_tt_live/bindings/__init__.py',
         'ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/documents/ebutt3_segmentation.py', 'ebu_tt_live/node/consumer.py'],
  mech=[('membership and clipping', 'bindings/validation/timing.py is_in_segment, _semantic_copy_apply_leaf_timing'),
        ('documents of a range', 'documents/ebutt3.py lookup_range_on_timeline, extract_segment'),
        ('consecutive segments', 'node/consumer.py ReSequencer')],
  note=NOTE + 'Text beside timed elements in one paragraph takes its times from them and is not covered; nor is a document whose extraction fails, '
       'which is logged and left out.'),
 dict(id='C21', title='A configuration becomes exactly the system it describes, or is rejected',
  statement="""Every node, carriage mechanism, adapter, clock and backend a configuration names is created once, with the options given for it (or their
  documented defaults), connected as configured, and started once if it has to be; no option is accepted and then ignored. A name that does not exist, a
  proxy that can not be parsed, a second backend and a listening address already used by another component or protocol give a configuration error.
  Each listening address and each connection of a WebSocket carriage gets its own socket with the data source or sink, protocol and proxy configured.""",
  over=['inputs'], forall='every combination of configured nodes, options, carriages, adapters, addresses and clocks',
  why='Tests load a few configurations, mostly without starting sockets; most options, legacy sockets and conflicts are never exercised.',
  files=['ebu_tt_live/config/__init__.py', 'ebu_tt_live/config/common.py', 'ebu_tt_live/config/node.py', 'ebu_tt_live/config/carriage.py',
         'ebu_tt_live/config/backend.py', 'ebu_tt_live/config/adapters.py', 'ebu_tt_live/config/clocks.py', 'ebu_tt_live/twisted/websocket.py'],
  mech=[('lookups', 'config/*.py get_node, get_backend, get_clock, get_*_carriage, get_data_adapter'),
        ('creating and connecting nodes', 'config/node.py'), ('carriages', 'config/carriage.py'), ('sockets, start', 'config/backend.py')],
  note=NOTE + 'How configman merges sources, and the form of connection addresses, are not analysed; nor are runtime variables, which nothing uses.'),
 dict(id='C24', title='Deduplication merges only equal elements and keeps every reference',
  statement="""A document emitted by a deduplicator node holds each style and region once: elements that differ in any attribute but the id, foreign attributes
  included, are kept apart and of equal ones exactly one is kept. Every style and region reference, of content, regions and styles, names the element kept for
  the one it named before, in the same order of precedence. The emitted document was validated after that.""",
  over=['inputs'], forall='every document, with any styles, regions, foreign attributes and references between them',
  why='Tests use a few pairs of styles; attributes that may be missing, foreign attributes, separators inside values and nested references are not enumerated.',
  files=['ebu_tt_live/node/deduplicator.py'],
  mech=[('what elements are compared by', 'node/deduplicator.py ComparableElement'),
        ('collecting and keeping', 'node/deduplicator.py CollateUniqueVals, AppendNewElements'),
        ('references', 'node/deduplicator.py ReplaceStylesAndRegions')],
  note=NOTE + 'Metadata inside styles and regions is not compared. Styles that differ only in references to equal styles are not merged.'),
 dict(id='C16', title='Every element is styled as its references, parent and region say',
  statement="""The specified style of an element takes each attribute from the first of the styles it refers to, in order and each followed by the styles it refers
  to in turn, that has it; a region puts its own attributes first. Its computed style takes what is not specified, if inherited, from its parent, else from the
  region in force, else the default, and relative sizes are of the right other size. A missing style or region and styles referring to each other in a circle
  are errors; a region is in force exactly for the content of the element referring to it.""",
  over=['inputs'], forall='every document: any nesting of elements, regions, styles, units and references',
  why='Tests compute a few documents; each attribute, combination of units, deferred sizes and order of references is not enumerated.',
  files=['ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/bindings/validation/presentation.py'],
  mech=[('specified style', 'bindings/__init__.py style_type.resolve_styles, ordered_styles'),
        ('computed style', 'bindings/__init__.py style_type.compute_style'),
        ('references and scope', 'bindings/validation/presentation.py StyledElementMixin, RegionedElementMixin')],
  note=NOTE + 'The numbers resulting from multiplying and converting sizes are not computed, only what is multiplied with what.'),
 dict(id='C33', title='Sizes, times and colours keep their meaning when read, written and converted',
  statement="""Every size and every clock or timecount value the schema allows is read completely, with its sign, fraction and unit, and each part of it as the
  direction it stands for; numbers and durations are written as valid values with the same meaning, durations to the millisecond, and a limited clock value refuses
  100 hours and more. Products and ratios of sizes, and changes between cells, pixels and percentages, are calculated for each direction from the matching parts, a
  single size counting for both; two sizes of a kind are equal exactly when they are the same in both directions. Each named colour is converted to the value TTML defines for it.""",
  over=['inputs'], forall='every text the schema accepts for a size, time or colour, every duration and every combination of one- and two-part sizes',
  why='Tests sample some values; that the reading expressions cover the whole language of the schema, and that the arithmetic is an identity, is not settled by samples.',
  files=['ebu_tt_live/bindings/_ebuttdt.py'],
  mech=[('reading and writing sizes', 'bindings/_ebuttdt.py TwoDimSizingMixin and the expressions of its classes'),
        ('times', 'bindings/_ebuttdt.py as_timedelta, from_timedelta, _get_time_members'),
        ('calculations, colours', 'bindings/_ebuttdt.py do_mul, _do_div, cells_to_pixels, pixels_to_cells, named_color_to_rgba')],
  note=NOTE + 'SMPTE values, which the code does not implement, negative durations and the exponents Python writes for tiny numbers are not covered.'),
 dict(id='C17', title='Ids are unique in a document, also after extracting and splicing',
  statement="""Validating a document records every element that has an id under it, starting afresh each time, and fails if two elements share one; looking up an
  id afterwards gives its element, of the kind asked for, or an error. Every id in a segment extracted from a sequence is made of the number of its document and
  the id in it, unambiguously, so that segments of different documents never clash. When documents are merged, no two styles, no two regions and no two content
  elements of the result have the same id.""",
  over=['inputs', 'histories'], forall='every document, every validation of it, every sequence and every list of documents to be merged',
  why='Tests merge two or three documents with a few ids; which ids clash depends on every combination of ids in any number of documents.',
  files=['ebu_tt_live/bindings/validation/base.py', 'ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/documents/ebutt3_segmentation.py', 'ebu_tt_live/documents/ebutt3_splicer.py'],
  mech=[('registration and lookup', 'bindings/validation/base.py IDMixin, bindings/__init__.py tt_type.get_element_by_id'),
        ('renaming in segments', 'documents/ebutt3_segmentation.py, bindings/validation/base.py IDMixin.deconflict_id'),
        ('merging', 'bindings/__init__.py body_type, styling, layout merge')],
  note=NOTE + 'Merging documents that were not extracted from a sequence is claimed for each kind of element on its own; references to styles renamed by such a merge are not covered.'),
 dict(id='C19', title='Documents written to a folder can be replayed from its manifest',
  statement="""Every document sent to a folder is written to one file there, as UTF-8, named by the configured pattern from its sequence identifier and its sequence
  number or, without one, a running count; after the file is complete, one line with its availability time (the given one, or else that of one clock kept for the
  sequence, plus any delay) and its name is added to the manifest of the sequence, unless manifests are suppressed or no time can be determined. A reader hands on
  every line of a manifest in order, with the contents of the file it names, and stops at the end only if it was not asked to wait for more. The time written to the
  millisecond is the time with which the document reaches the node.""",
  over=['inputs', 'histories'], forall='every series of documents and messages, with and without number, time and delay, and every manifest',
  why='Tests write a few documents with ordinary times; the counts, times and lines of arbitrary series are not sampled.',
  files=['ebu_tt_live/carriage/filesystem.py', 'ebu_tt_live/strings.py'],
  mech=[('writing', 'carriage/filesystem.py FilesystemProducerImpl.emit_data, check_availability_time'),
        ('reading', 'carriage/filesystem.py FilesystemReader.resume_reading, FilesystemConsumerImpl.on_new_data'),
        ('times', 'carriage/filesystem.py timedelta_to_str_manifest, timestr_manifest_to_timedelta')],
  note=NOTE + 'Sequence identifiers that contain commas, line breaks or path separators, negative times and lines half written while they are read are not covered.'),
 dict(id='C20', title='The rotating buffer deletes exactly the files that fall out of it',
  statement="""With a limit on the number of files, every file written is remembered once after it was written, and while the limit is exceeded the oldest
  remembered one is handed over for deletion, once, before the new one is taken; without a limit nothing is deleted, and nothing else is ever deleted. Every file
  handed over is deleted if it exists, by a thread or directly; one that cannot be deleted is tried again, does not keep others from being deleted, and deletion
  does not end while any remain. Nothing is remembered once the thread has been stopped.""",
  over=['histories', 'schedules', 'fault_sequences'], forall='every series of files, every limit, every failure to delete a file and every time the thread is stopped',
  why='Tests fill a small buffer whose files can all be deleted; failures and stopping at arbitrary points are not sampled.',
  files=['ebu_tt_live/utils.py', 'ebu_tt_live/carriage/filesystem.py'],
  mech=[('buffer', 'utils.py RingBufferWithCallback.append'), ('deletion', 'utils.py RotatingFileBuffer'),
        ('use', 'carriage/filesystem.py FilesystemProducerImpl')],
  note=NOTE + 'Assumes that files have different names: a name written again is deleted when its earlier entry falls out. Queues are trusted to be thread-safe.'),
 dict(id='C30', title='Clocks tell the time of the time base they are made for',
  statement="""The clock made for a time base and clock mode, or for a document, is one of exactly that time base and mode. A clock of local or coordinated time gives the
  complete time of day of its zone, read once; a clock of media time starts at zero when it is made and gives the time it was set to plus the time passed since. While
  a clock is fixed it gives exactly the time it was fixed at and afterwards the real time again; setting it accepts every duration and nothing else.""",
  over=['histories', 'configurations'], forall='every time base and clock mode, every moment, and every order of setting, fixing and reading',
  why='Tests freeze the clock at some moments; that every path gives the whole reading and every mode has its own clock is a fact about all of them.',
  files=['ebu_tt_live/clocks/__init__.py', 'ebu_tt_live/clocks/base.py', 'ebu_tt_live/clocks/local.py', 'ebu_tt_live/clocks/utc.py', 'ebu_tt_live/clocks/media.py'],
  mech=[('choosing the clock', 'clocks/__init__.py get_clock, get_clock_from_document'),
        ('reading', 'clocks/local.py, clocks/utc.py, clocks/media.py get_real_clock_time'), ('fixed time', 'clocks/base.py Clock')],
  note=NOTE + 'Clocks of GPS time do not exist (known finding), and the media clock loses a day at midnight (known finding); precision of the system clock is not covered.'),
 dict(id='C26', title='Traversals visit every element once, in document order',
  statement="""Validating, segmenting, retiming and deduplicating a document visit every element the operation is meant for exactly once: children in the order of the
  document, each with its value, its parent and the arguments of the operation, between the entry and exit hooks of its parent, and all other content once through its
  own hook. Stopping a branch leaves out that branch only, and any other failure ends the operation. Each validation works on a fresh set of data; comparing documents
  compares their keys with the same operator after checking that they can be compared.""",
  over=['programs', 'inputs'], forall='every document tree, every filter, both orders of processing and every point at which a branch is stopped or fails',
  why='Tests traverse a few small trees; that no sibling is skipped, visited twice or given another parent is a property of the traversal itself for all trees.',
  files=['ebu_tt_live/bindings/pyxb_utils.py', 'ebu_tt_live/bindings/validation/validator.py', 'ebu_tt_live/utils.py'],
  mech=[('traversal', 'bindings/pyxb_utils.py RecursiveOperation'), ('validation run', 'bindings/validation/validator.py SemanticValidator'),
        ('comparison', 'utils.py ComparableMixin')],
  note=NOTE + 'The iterators over the children themselves belong to PyXB and are trusted.'),
 dict(id='C34', title='Documents are written completely and unchanged',
  statement="""The XML and the tree of a document or message are those of its own content, all of it, in the encoding and with the namespaces asked for and otherwise with the
  prefixes of the specifications, and nothing is added to its text, so that reading and writing a document any number of times keeps the text. An EBU-TT-D document has the
  root element tt, without a prefix exactly where the namespace of TTML is asked for as the default one, and is refused with another time base than media. A message is
  written with its sequence, kind, sender, recipients and content and read back with them.""",
  over=['inputs', 'histories'], forall='every document and message, every number of times it is passed on, both ways of writing the namespace',
  why='Tests compare a few documents after one hop and mostly look at single attributes; what accumulates from hop to hop or is lost in other documents is not seen.',
  files=['ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/bindings/_ebuttlm.py', 'ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/documents/ebuttd.py'],
  mech=[('text of the root elements', 'bindings/__init__.py tt_type, d_tt_type; bindings/_ebuttlm.py message_type'), ('documents', 'documents/ebutt3.py, documents/ebuttd.py get_xml, get_dom'),
        ('messages', 'documents/ebutt3.py EBUTTAuthorsGroupControlRequest')],
  note=NOTE + 'That PyXB and minidom write every element and attribute of a binding is trusted.'),
 dict(id='C31', title='Documents that contradict their root settings are rejected, no others',
  statement="""Validation rejects a document whose root gives a clock mode without the clock time base or none with it, marker or drop mode without the SMPTE time base or not all
  of the SMPTE attributes with it, or an extent that is not in pixels. It also rejects one in which a style or region gives a font size, line height, origin or extent in pixels
  while the root gives no extent. No document is rejected by these rules that does not break them.""",
  over=['inputs'], forall='every time base, every combination of root attributes, every kind of size',
  why='The rules are a table over time bases, attributes and units; tests try some cells of it, mostly the invalid ones.',
  files=['ebu_tt_live/bindings/__init__.py', 'ebu_tt_live/bindings/_ebuttdt.py', 'ebu_tt_live/bindings/validation/base.py', 'ebu_tt_live/bindings/validation/presentation.py'],
  mech=[('root settings', 'bindings/__init__.py tt_type'), ('sizes', 'bindings/__init__.py style_type, region_type; bindings/_ebuttdt.py pixel types')],
  note=NOTE + 'Padding in pixels is accepted without an extent, as the existing tests demand; the rest of the schema is enforced by PyXB, which is trusted.'),
 dict(id='C22', title='No code path uses names, arguments or attributes that do not exist',
  statement="""No operation of the toolkit fails, in any of its branches, because it reads a name that is not defined or not yet set, imports or reads something its own modules do
  not have, calls a function, method or class with arguments it does not take, reads an attribute of itself that no class gives it, or fills a text without all the values the
  text asks for. Error branches, which build the messages users rely on to find out what went wrong, are included.""",
  over=['programs'], forall='every function, call, name and text of the toolkit',
  why='Python only finds these when the statement runs; tests run few of the error branches and of the combinations of options.',
  files=['ebu_tt_live'],
  mech=[('the whole package', 'ebu_tt_live, without tests and generated bindings')],
  note=NOTE + 'Attributes of objects other than self are only checked for calls in snake case; the generated bindings and the libraries are not analysed. Names the generated bindings may supply are taken to exist.'),
  dict(id='C27', title='A time of zero is never taken for a missing time',
  statement="""Begin and end times, durations, delays, availability times and clock readings may be absent, and they may be zero. Wherever the toolkit treats an absent time
  differently from a given one, a time of zero counts as given: in the timing of documents and their elements, in the timeline of a sequence, in delays and in segmentation.""",
  over=['inputs', 'programs'], forall='every time the toolkit keeps or is given that is either absent or zero',
  why='Tests use times of zero in few places, and a zero that is replaced by a default of zero goes unnoticed until something else is the default.',
  files=['ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/bindings/validation/timing.py', 'ebu_tt_live/node/delay.py', 'ebu_tt_live/node/encoder.py'],
  mech=[('documents and sequences', 'documents/ebutt3.py'), ('timing of elements', 'bindings/validation/timing.py'), ('delays and segments', 'node/delay.py, node/encoder.py, node/deduplicator.py')],
  note=NOTE + 'What holds a time and what may be None is inferred by name over the whole package; generated bindings are not analysed.'),

 dict(id='C35', title='Legacy WebSockets and user input deliver everything to the right party',
  statement="""With the legacy protocol everything emitted for a channel is sent once, as UTF-8, to every open connection that has subscribed to that channel and not unsubscribed since, and
  to no other; a message that cannot be understood changes nothing. A client subscribes to all its channels when its connection opens and hands everything it receives to its consumer
  unchanged. The user input server hands every message to its consumer once and answers whether that succeeded.""",
  over=['inputs', 'histories'], forall='every sequence of opening, subscribing, unsubscribing, sending and closing',
  why='The legacy protocol has hardly any tests; the tests there are use one client and one channel.',
  files=['ebu_tt_live/twisted/websocket.py'],
  mech=[('channels', 'twisted/websocket.py LegacyBroadcastServerProtocol, LegacyBroadcastServerFactory, TwistedPullProducer'),
        ('clients', 'twisted/websocket.py LegacyBroadcastClientProtocol, LegacyBroadcastClientFactory, TwistedConsumer'),
        ('user input', 'twisted/websocket.py UserInputServerProtocol, UserInputServerFactory')],
  observe=['sendMessage', 'consumer write'],
  note=NOTE + 'That a JSON text is parsed as written is trusted.'),
 dict(id='C36', title='The example producer shows every line of its text, on time',
  statement="""Every document the example producer issues is a new one of its sequence, handed over once and complete: it takes the next block of the text and holds all lines of the block
  in order, with one line break between two lines and nothing else. It is shown for one second from one second after the time of the sequence's clock; without a text it shows that starting
  time instead. At the end of the text producing ends with an error that says so, and no sequence number is used up.""",
  over=['inputs', 'histories'], forall='every text, number of lines in a block and clock time',
  why='No test runs the example producer on its text; the tests only use it as a source of valid documents.',
  files=['ebu_tt_live/node/producer.py', 'ebu_tt_live/documents/ebutt3.py'],
  mech=[('documents', 'node/producer.py SimpleProducer'), ('setters', 'documents/ebutt3.py EBUTT3Document add_div, set_begin, set_dur')],
  observe=['emit_data'],
  note=NOTE + 'How a text is split into blocks and lines is not decided; blocks hold at least one line.'),
 dict(id='N01', title='Reading and writing a document keeps all of its XML',
  statement="""A valid document that is read and written again has the same elements, attributes and text in the same order as the one that was read.""",
  over=['inputs'], forall='every valid EBU-TT Part 3, Live message and EBU-TT-D document',
  why='Tests compare a few documents; the schema has many more shapes.',
  files=['ebu_tt_live/bindings/__init__.py'], mech=[('generated bindings', 'bindings/raw, made from xsd at build time')],
  note='', na="""What is read and written is decided at run time by the content model automata of PyXB from generated tables; the code is neither in this repository nor statically
  resolvable (metaclasses). The parts that are in the repository are decided under C14, C15 and C34."""),
 dict(id='N02', title='Delays and replays happen at the right moment',
  statement="""Data given a delay leaves after that delay, and a replayed manifest hands each document on at the time its line gives, within a small tolerance, however busy the system is.""",
  over=['schedules'], forall='every load and every number of pending documents',
  why='Tests replace the scheduler or wait for a single document.',
  files=['ebu_tt_live/node/delay.py', 'ebu_tt_live/carriage/websocket.py', 'ebu_tt_live/carriage/filesystem.py'], mech=[('scheduling', 'reactor.callLater and sleeping threads')],
  note='', na="""Quantifies over real time, which the scheduler, the load and the operating system decide; no static argument bounds it. That the right delay is given to the scheduler
  exactly once is C25, and that lines are replayed in order is C19."""),
 dict(id='N03', title='Memory of a long running node stays bounded',
  statement="""A node that has run for any time keeps memory only for the documents still needed; documents that were dropped from a sequence or forwarded are released.""",
  over=['histories'], forall='every length of operation',
  why='A leak shows only after a long time or with particular references.',
  files=['ebu_tt_live/documents/ebutt3.py', 'ebu_tt_live/node/delay.py'], mech=[('dropping documents', 'documents/ebutt3.py discard_before'), ('binding trees', 'generated by PyXB')],
  note='', na="""Needs a sound bound on run-time reachability through generated bindings, closures and the scheduler, which is out of reach here. What is dropped from a sequence, and when,
  is C32 and C28; how many numbers are remembered is C04."""),
]
