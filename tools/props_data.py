prop('C01', 'A null parser handle is rejected, never dereferenced',
     'Every exported entry point that takes a parser handle may be called with a null handle: it neither crashes nor panics nor '
     'calls back nor writes anything, and returns the documented neutral result (0, null, -1, error status or the invalid-argument code).',
     ['inputs', 'histories'], 'for every exported entry point and every value of the remaining arguments',
     'the suite calls a handful of entry points with a null handle once each; the guarantee covers all of them and every path before the check',
     ['src/lib/xmlparse.rs'], [('null check at the head of each exported function', 'src/lib/xmlparse.rs: XML_* functions')],
     'abstract interpretation of MIR (null-handle path enumeration over resolved calls)',
     'Exhaustive over paths with the handle null, all other arguments arbitrary; quick analyses the default features, thorough also unicode and mozilla.')

prop('C14', 'DTD and prolog declarations follow the grammar, token by token',
     'The sequence of lexical tokens accepted before the root element, inside a document type declaration (internal or external subset) and '
     'its element, attribute-list, entity, notation and conditional-section declarations is exactly that of the XML 1.0 grammar, with keywords '
     'recognised only in full and in the right place. Each accepted token is given the meaning the grammar assigns to it at that place '
     '(for example a literal as public id, system id, entity value or default value), nested groups must be balanced, and every other token is '
     'reported as a syntax error from which no further declaration is accepted; in external subsets and parameter entities a parameter entity '
     'reference may stand inside declarations, in the internal subset it may not.',
     ['inputs'], 'for every sequence of lexical tokens of a prolog, internal subset or external subset',
     'the suite samples some tens of declarations; the state machine has about 140 configurations, 40 tokens and 25 keywords',
     ['src/lib/xmlrole.rs'], [('one handler function per grammar state, chained through the state record', 'src/lib/xmlrole.rs: prolog0..declClose')],
     'state-machine extraction by abstract interpretation of MIR + simulation against a grammar table',
     'Exact comparison of roles, successor states and keyword offsets for every reachable configuration (nesting bounded as stated in the assumptions).',
     state=[('prolog state', 'current handler, nesting level, include depth, document/external flag', 'src/lib/xmlrole.rs: prolog_state')])

prop('C18', 'A parser for an external entity starts from what its parent knows',
     'XML_ExternalEntityParserCreate returns null or a parser that has its parent\'s handlers (all but the doctype ones), user data, namespace mode, separator and '
     'triplet mode, default expansion and parameter-entity setting, passes itself or the user data to handlers as the parent does, and is otherwise unused. '
     'With a context it works on its own complete copy of the parent\'s declarations (entities, element types, default attributes, attribute names, prefixes, flags) to which the context is applied, and parses content; '
     'without one it shares the parent\'s declarations and parses an external subset. The parent is not changed.',
     ['inputs', 'histories'], 'for every state of the parent, every set of declarations and handlers, and every context and encoding argument',
     'tests create a few children with a few handlers; what is lost in the child shows only for the handler, mode or declaration nobody sampled',
     ['src/lib/xmlparse.rs'], [('inheritance', 'src/lib/xmlparse.rs: XML_ExternalEntityParserCreate'), ('copy of the declarations', 'src/lib/xmlparse.rs: DTD::try_clone, copyEntityTable')],
     'path summaries of MIR over a symbolic parent; field-by-field provenance',
     'Every path of creation; the copy is analysed for an arbitrary entry of each table (two for entities). The context string itself and allocation failure inside the library containers are outside.')
prop('C19', 'A reset parser is like a new one',
     'A parser just created, or just reset with XML_ParserReset (which returns true), has no handlers, user data, base, error, position, open element or entity, no declarations from earlier input, default settings, '
     'the given protocol encoding, and detects its encoding afresh; a reset keeps only namespace mode, triplet mode and the unknown-encoding handler with its data, and works even while a parser for an '
     'external parameter entity still shares the declarations. On a parser made by XML_ExternalEntityParserCreate it returns false and changes nothing.',
     ['inputs', 'histories'], 'for every history of the parser before the reset and every encoding name',
     'state left over from a previous document matters only for particular pairs of documents; the tests reset a parser in a handful of states',
     ['src/lib/xmlparse.rs'], [('initial state', 'src/lib/xmlparse.rs: XML_ParserStruct::try_new, init'), ('reset', 'src/lib/xmlparse.rs: XML_ParserStruct::reset, DTD::reset')],
     'path summaries of MIR over a symbolic parser; comparison with the table of an unused parser',
     'Every path; all observable fields and every container of the declarations. Storage kept for reuse (buffers, free lists) is not examined; resetting from inside a callback is outside.')
prop('C22', 'Parsers share no mutable process-wide state',
     'The library keeps no mutable process-wide or per-thread state: no global or thread-local variable, cache, counter or lazily built table '
     'is written after start-up, and nothing is read from the environment, clock, files or threads. Independent parsers can therefore be used '
     'from different threads at once and interleaved on one thread without influencing each other, and two runs on the same input behave the same.',
     ['inputs', 'schedules'], 'for every set of parsers, every interleaving of calls on them and every environment',
     'tests run parsers one at a time in one process; hidden sharing shows only under interleavings or after unusual histories',
     ['src/lib', 'src'], [('immutable tables only', 'statics of src/lib/*.rs'), ('all state in the parser and its DTD', 'src/lib/xmlparse.rs: XML_ParserStruct')],
     'effect analysis of MIR (statics, thread-locals, foreign and environment calls)',
     'Whole crate: every static and every function body. Sharing of memory handed in by the caller (allocator, callbacks) is outside.')

prop('C29', 'A declared encoding and standalone value take effect as specified',
     'Once a well-formed XML or text declaration has been recognised, what it says is reported once, as it says it (version, encoding name, standalone), to the declaration handler, or its text to the default handler if there is none. '
     'standalone="yes" in the document marks it standalone and ends the reading of parameter entities if that was to depend on it. An encoding given from outside overrides the declared one. Otherwise a declared known encoding is used '
     'from there on; one that contradicts the unit size or byte order already in use is INCORRECT_ENCODING at the encoding name; an unknown one is asked for, by its name, from the unknown encoding handler: without a usable answer it is UNKNOWN_ENCODING '
     'at the name and the data of the answer is released; a usable answer is used and kept with its data and release function. An unknown encoding given from outside is asked for in the same way before the first byte. '
     'A malformed declaration has no effect but its error: XML_DECL, or TEXT_DECL in an external entity.',
     ['inputs', 'configurations'], 'for every combination of what a declaration says, encoding given, encoding in use, handlers and settings, and every outcome of the handler and of the allocations',
     'the tests try few of the combinations; none checks what is kept, released or left alone in the others',
     ['src/lib/xmlparse.rs'],
     [('declarations', 'src/lib/xmlparse.rs: processXmlDecl'), ('unknown encodings', 'src/lib/xmlparse.rs: handleUnknownEncoding'), ('encoding given', 'src/lib/xmlparse.rs: initializeEncoding')],
     'all paths of the three functions in over 3800 situations (path summaries by abstract interpretation of MIR), against an oracle computed from the situation',
     'What the declaration says (its syntax) and the look-up of the declared name are taken from the scanner of declarations, which is not part of it, and so is whether an answer is usable (another property).')

prop('C26', 'Attributes are reported exactly as written, declared and defaulted',
     'A start tag reports every attribute written in it, in document order, then each declared default not written, in order of declaration; each appears once with its value, normalised as the first declaration '
     'of the attribute for that element demands (CDATA when undeclared); a second attribute of the same name is refused as a duplicate. The count of specified attributes and the index of the ID attribute are those of the tag last reported, '
     'and only the first declaration of an attribute of an element counts. With namespace processing, namespace declarations are neither reported nor counted as attributes.',
     ['inputs'], 'for every start tag, every set of attribute declarations and both namespace modes',
     'which attributes collide, are inherited, or need normalising depends on combinations of tag and declarations; the tests hold a few dozen',
     ['src/lib/xmlparse.rs', 'src/lib/xmltok_impl.rs'],
     [('attributes picked out of the tag', 'src/lib/xmltok_impl.rs: getAtts'), ('attributes stored and defaulted', 'src/lib/xmlparse.rs: storeAtts'), ('values normalised', 'src/lib/xmlparse.rs: storeAttributeValue, appendAttributeValue'),
      ('attribute declared', 'src/lib/xmlparse.rs: defineAttribute')],
     'product of an abstract scanner of the tag with the grammar of start tags; path summaries of MIR for start tags and declarations',
     'The tag scanner for tags of any length; storing and defaulting for tags of up to five attributes and up to three declarations in over 100 situations, every path of each; value scanner per token.')

prop('C27', 'Namespaces are bound, inherited and expanded exactly as declared',
     'With namespace processing, a namespace declaration is in force for its whole start tag and content of its element and what it replaced is in force again afterwards; start and end of each are reported '
     'around the element. Names of elements and prefixed attributes are expanded to URI, separator, local name and, in triplet mode, prefix; an unprefixed element takes the default namespace, an unprefixed attribute '
     'none; the end tag reports the same name as the start tag. Unbound prefixes, attributes equal after expansion, undeclaring a prefix, and any misuse of the prefixes xml and xmlns or their URIs are refused with their own error code.',
     ['inputs', 'histories'], 'for every tag, every set of bindings in force and every separator',
     'bindings are shadowed, restored and reused across elements; the tests check a handful of nestings and never the reuse of storage',
     ['src/lib/xmlparse.rs'],
     [('declaration checked and put in force', 'src/lib/xmlparse.rs: addBinding'), ('names split into prefix and local part', 'src/lib/xmlparse.rs: getAttributeId, setElementTypePrefix'), ('names expanded', 'src/lib/xmlparse.rs: storeAtts'),
      ('bindings restored', 'src/lib/xmlparse.rs: doContent, freeBindings')],
     'path summaries of MIR over symbolic parsers, strings held as sequences of characters',
     'Every path; URIs and names by classes of characters; tags of up to five attributes and elements with up to two declarations.')

prop('C02', 'Calls are accepted or refused exactly as the parsing state allows',
     'Input calls (parse, parse-buffer, get-buffer) are refused while suspended or finished with the code that names the state, negative lengths and null data '
     'with a non-zero length are refused in every state, and otherwise the input is processed exactly once with the state "parsing"; stop moves the '
     'state to suspended or finished unless already suspended (for suspend), finished, or a parameter entity is being read (for suspend), and resume works only when suspended. '
     'Encoding, foreign-DTD, namespace-triplet and parameter-entity settings are stored exactly when no parse is under way (initialised or finished) and refused without effect otherwise. '
     'A refused call changes nothing but the error code.',
     ['inputs', 'histories'], 'for every parsing state, every class of arguments and every other content of the parser',
     'tests call a few of these functions in a few states; the guarantee is about all states, also those reached from inside handlers',
     ['src/lib/xmlparse.rs'], [('state word and error code checked at the head of each entry point', 'src/lib/xmlparse.rs: XML_Parse, parseBuffer, getBuffer, stopParser, resumeParser, XML_Set*')],
     'abstract interpretation of MIR (path enumeration per state and argument class, exact outcome sets)',
     'All paths of each entry point for each state; memory exhaustion is not considered here.',
     state=[('parsing status', 'initialised, parsing, finished, suspended', 'src/lib/xmlparse.rs: m_parsingStatus')])

prop('C03', 'Parse results are reported truthfully and errors stay and propagate',
     'A parse, parse-buffer or resume call returns the error status and stores the code exactly when processing found an error, the suspended status exactly when a handler '
     'suspended it, and success otherwise; the state becomes finished after the final buffer and only then. After an error every further call repeats that error without '
     'processing input. An error code returned by any internal step is never turned into success by its caller.',
     ['inputs', 'histories'], 'for every path after input processing, and every internal call that can return an error code',
     'tests see a few errors raised in simple places; a dropped error shows only for the one nesting or entry point that drops it',
     ['src/lib/xmlparse.rs'], [('error result handling after each processor call', 'src/lib/xmlparse.rs: parse, parseBuffer, resumeParser'), ('error propagation', 'src/lib/xmlparse.rs: every function returning XML_Error')],
     'abstract interpretation of MIR (path enumeration after the processor call; error-taint propagation through every caller)',
     'Whole crate, every function returning an error code. What errors are raised for which input is the matter of other properties.')

prop('C05', 'Every handler is stored, called and given its registered argument correctly',
     'Each handler setter stores its arguments unchanged in the slots of exactly those handlers and changes nothing else, except that the two default-handler setters also turn '
     'internal-entity expansion off or on. Every handler call passes the registered handler argument (user data, or the parser when that is selected; the encoding '
     'data or external-entity argument for those two handlers) first and then the arguments of the event in order. User data, '
     'the external-entity argument and the base are read back as set, and the user data is the first word of the parser.',
     ['inputs', 'histories'], 'for every setter, every previous parser content and every function that calls a handler',
     'the suite exercises most handlers only in one combination; a swapped slot or argument shows only for the combination nobody tries',
     ['src/lib/xmlparse.rs'], [('handler table and its setters', 'src/lib/xmlparse.rs: CXmlHandlers, XML_Set*Handler'), ('forwarding functions', 'src/lib/xmlparse.rs: XmlHandlers for CXmlHandlers')],
     'abstract interpretation of MIR (path enumeration with provenance of stored and passed values)',
     'Every exported setter and every function calling through a handler slot.')

prop('C17', 'The binary interface is that of the C library (expat 2.2.9)',
     'Every function declared in the C header of expat 2.2.9 is exported under its C name with the C calling convention and the header\'s parameter and result types, and every structure '
     'and enumeration of the header has the header\'s layout and values. The description of every error code (null for every number that is no error code), the version string and numbers, and the feature '
     'list with its values are the documented ones.',
     ['inputs'], 'for every declared function, parameter, field, enumerator and every 32-bit error code',
     'the tests call the Rust functions directly, so a changed symbol, parameter, layout or code value goes unnoticed by them',
     ['src/lib/xmlparse.rs', 'src/expat_h.rs'], [('exported functions', 'src/lib/xmlparse.rs: extern "C" fn XML_*'), ('public types', 'src/expat_h.rs')],
     'queries over the type-checked program (signatures, layouts) and abstract interpretation of the table functions',
     'All 66 functions of the 2.2.9 header; quick analyses 8-bit characters, thorough also 16-bit characters.')

prop('C12', 'Text is split into tokens exactly as the XML grammar says',
     'In every encoding and for every input, markup, references, character data, CDATA sections, ignored sections, DTD text and attribute and entity values are split into exactly the tokens of the '
     'XML 1.0 grammar (in namespace mode with qualified names), and malformed input is rejected at the offending character. Input that ends inside a token, or inside a multi-byte character, is reported '
     'as incomplete, never as malformed or as another token; no byte beyond the input is read.',
     ['inputs'], 'for every byte sequence, every encoding and every place where the input may be cut',
     'the suite samples some hundred inputs, nearly all in UTF-8; the scanners have thousands of paths per encoding',
     ['src/lib/xmltok_impl.rs'], [('one generic scanner per mode, instantiated per encoding', 'src/lib/xmltok_impl.rs: contentTok, prologTok, cdataSectionTok, attributeValueTok, entityValueTok, ignoreSectionTok')],
     'abstract interpretation of MIR with a grammar automaton alongside (typestate of the input)',
     'All paths to a fixpoint, input length unbounded; nesting of ignored sections up to three. Characters are abstracted by the class the encoding gives them.')

prop('C13', 'Every character of every encoding is decoded, classified and converted right',
     'In UTF-8, UTF-16 (both orders), ISO-8859-1, US-ASCII and encodings described by the application, every character is given its XML 1.0 class (markup, white space, name start, name, other) and malformed '
     'sequences (overlong, surrogate, out of range, U+FFFE and U+FFFF, bad trailing bytes, undefined bytes) are rejected. Characters are passed on in UTF-8 (or UTF-16) unchanged; a conversion '
     'consumes and produces whole characters only, never writes past the room it is given, and reports exactly whether it completed, ran out of room or ran out of input. Character '
     'reference numbers are accepted exactly when they denote an XML character, and an application-defined byte map is accepted exactly when it leaves the XML-significant ASCII characters in place.',
     ['inputs'], 'for every code point, every byte sequence of a character, every table entry of an application-defined encoding, every output capacity',
     'the suite samples some tens of characters and maps; there are over a million characters per encoding',
     ['src/lib/xmltok.rs', 'src/lib/nametab.rs'], [('character classes and converters of each encoding', 'src/lib/xmltok.rs: impl XmlEncodingImpl'), ('application-defined encodings', 'src/lib/xmltok.rs: UnknownEncoding::initialize'),
      ('encoders', 'src/lib/xmltok.rs: XmlUtf8Encode, XmlUtf16Encode, checkCharRefNumber')],
     'exact abstract interpretation of MIR over finite domains (values as functions of the input bytes)',
     'All values of all bytes of one character (and samples of pairs for the loops); eight (thorough: 37) entries of application-defined encodings with all values each. The letters U+00AA, U+00B5 and U+00BA may be letters in single-unit tables, as in Expat.')

prop('C15', 'Content is reported exactly as it occurs in the document',
     'Every construct in and after the document element (character data, line ends, character and predefined-entity references, CDATA sections, start tags, end tags and empty elements, comments, processing '
     'instructions) is reported exactly once, in order, to the handler registered for it, with exactly the text it stands for, in the character encoding of the application; what has no handler of its own goes unchanged to the default handler, if '
     'there is one, and nothing else is called. Mismatched, unclosed and misplaced constructs give their documented error codes, and input that may continue in the next chunk is left for it.',
     ['inputs', 'configurations'], 'for every token at every place of a document, every set of registered handlers, every encoding and every chunking',
     'the suite runs a few documents with a few handler sets; which handler is called depends on some thirty conditions that combine freely',
     ['src/lib/xmlparse.rs'], [('token loops of content, CDATA sections and what follows the document element', 'src/lib/xmlparse.rs: doContent, doCdataSection, epilogProcessor'),
      ('reporting', 'src/lib/xmlparse.rs: reportDefault, reportComment, reportProcessingInstruction')],
     'abstract interpretation of MIR (all paths of one step of a token loop from an arbitrary parser state against a specification of the step)',
     'One step from any state, so any number of steps; element names and text are symbolic. Attributes and the tokens themselves are separate matters.')

prop('C04', 'Stopping and suspending take effect at once and resuming loses nothing',
     'When a callback stops or suspends the parse, the construct being reported is finished (a second callback of the same construct, such as the end of an empty element, may still come) and then no further '
     'construct is reported before the call returns, with the aborted error in the first case and as suspended in the other. Resuming continues with exactly the next construct wherever the suspension happened '
     '(in declarations, content, CDATA sections, after the document element, inside nested internal entities, after a text declaration), with open elements and entities as they were.',
     ['inputs', 'histories'], 'for every construct and every callback that may stop or suspend, at every nesting of entities',
     'the suite stops and suspends in a handful of handlers, and never resumes inside nested entities',
     ['src/lib/xmlparse.rs'], [('status checks after each token', 'src/lib/xmlparse.rs: doContent, doCdataSection, doIgnoreSection, epilogProcessor'),
      ('suspended internal entities', 'src/lib/xmlparse.rs: processInternalEntity, internalEntityProcessor'), ('first functions of external entities', 'src/lib/xmlparse.rs: externalEntityInitProcessor2, externalEntityInitProcessor3, entityValueInitProcessor')],
     'abstract interpretation of MIR (all paths of one step of a token loop, and of the functions around it, from an arbitrary parser state)',
     'Every callback is taken to leave the parser going, stopped or suspended.',
     state=[('parsing status', 'parsing, finished, suspended', 'src/lib/xmlparse.rs: m_parsingStatus'), ('open internal entities', 'stack, each with the part already processed', 'src/lib/xmlparse.rs: m_openInternalEntities')])

prop('C11', 'Entity references are checked and no entity can contain itself',
     'A reference to a general entity in content or in an attribute value, or to a parameter entity in an entity value, is refused with its specific error when the entity is undeclared or declared only in a parameter entity although all declarations are known, '
     'when it is unparsed, when it is external and the reference is in an attribute value, and when the entity is open already. An entity is open exactly while its text, or its external handler, is at work, also '
     'across suspensions. The replacement text is processed in place of the reference; references that are legitimately unknown are skipped and reported as skipped or to the default handler.',
     ['inputs', 'histories'], 'for every kind of entity, every place of a reference, every state of the document and every nesting',
     'the suite has a few recursive and a few undeclared entities; each check matters at three places and in six document states',
     ['src/lib/xmlparse.rs'], [('references in content', 'src/lib/xmlparse.rs: doContent'), ('references in values', 'src/lib/xmlparse.rs: appendAttributeValue, storeEntityValue'), ('opening and closing', 'src/lib/xmlparse.rs: processInternalEntity, internalEntityProcessor')],
     'abstract interpretation of MIR (all paths of a reference from an arbitrary parser state against a decision table)',
     'Parameter-entity references between declarations are left out.')

prop('C16', 'Every declaration is reported once, in order, with exactly its data',
     'Each declaration of the document type declaration and of the external subset (its start and end, element types, attribute lists, entities, notations) is reported once, in order, to the handler registered for '
     'it, with the names, identifiers, default values, base and flags that were written, and entity values and the first of several declarations of an entity are recorded as such; what has no handler of its own goes '
     'unchanged to the default handler. External subsets and parameter entities are handed out, skipped or remembered as unread exactly as the parameter-entity setting and the standalone declaration demand, the '
     'not-standalone handler is asked once before they count, and misplaced or incomplete parts give their documented error codes.',
     ['inputs', 'configurations'], 'for every token of a declaration in every role the grammar gives it, every set of registered handlers, every earlier declaration and every failing allocation',
     'the suite has some forty declarations with one set of handlers each; every part of a declaration depends on what is known of the others, on the handlers and on the parameter-entity setting',
     ['src/lib/xmlparse.rs'], [('token loop of the prolog and of declarations', 'src/lib/xmlparse.rs: doProlog, doPrologHandleEntityRef'), ('entity values', 'src/lib/xmlparse.rs: storeEntityValue'),
      ('handlers', 'src/lib/xmlparse.rs: CXmlHandlers')],
     'abstract interpretation of MIR (all paths of one step of the prolog loop from an arbitrary parser state against a specification of the step)',
     'One token in one role from any state, so any sequence of them. The grammar (which role a token has), the tables the declarations go into and the tree built for an element content model are separate matters.',
     state=[('declaration in progress', 'names and flags collected so far', 'src/lib/xmlparse.rs: m_decl* fields'), ('document type declaration', 'standalone, parameter entities read, processing declarations', 'src/lib/xmlparse.rs: DTD')])

prop('C06', 'No byte of the input is lost, repeated or reordered between parse calls',
     'Each parse call processes exactly the bytes the previous calls left unprocessed, followed by exactly the bytes it is given, and a resumed parse exactly what was left of the input when it was suspended; processing continues with the first '
     'byte of a construct that is not complete yet. XML_GetBuffer keeps the bytes not processed yet and all context before them up to 1024 bytes, whatever it does to its storage, and gives out at least the room asked for, right behind them. '
     'A parse call that fails returns XML_STATUS_ERROR, one that is suspended XML_STATUS_SUSPENDED, and any other XML_STATUS_OK, the last one finishing the parser.',
     ['inputs', 'histories'], 'for every division of the input into calls, every size of the buffer and of the piece given, and every position of the unprocessed rest in the buffer',
     'the suite cuts a few documents bytewise or in halves; whether the buffer is reused, moved or enlarged depends on the sizes and positions of three regions in it',
     ['src/lib/xmlparse.rs'], [('parse calls', 'src/lib/xmlparse.rs: parse, parseBuffer, resumeParser'), ('input buffer', 'src/lib/xmlparse.rs: getBuffer'), ('position to continue from', 'src/lib/xmlparse.rs: doContent, doCdataSection, doIgnoreSection, doProlog, epilogProcessor')],
     'abstract interpretation of MIR with linear expressions for buffer positions (all paths; linear implications decided by Fourier-Motzkin elimination)',
     'The buffer is a region of symbolic size with symbolic positions, so all sizes are covered. That the meaning of a document does not depend on its division as a whole is not claimed.',
     state=[('input buffer', 'unprocessed bytes between two recorded positions', 'src/lib/xmlparse.rs: m_buffer, m_bufferStart, m_bufferEnd')])

prop('C09', 'Byte index, line, column and context are those of the current event',
     'In every callback, and after a parse call, XML_GetCurrentByteIndex and XML_GetCurrentByteCount give the offset in the whole input and the length of the construct reported (of the reference, with length 0, inside an internal entity), and '
     'XML_GetInputContext gives the buffered input with the offset of that construct in it. XML_GetCurrentLineNumber and XML_GetCurrentColumnNumber give one plus the number of line ends (CR, LF or CRLF) before it and the number of characters since the last of them, '
     'in any encoding, and asking, at any time and in any order, changes no answer. After an error the construct is empty and lies where the error was found.',
     ['inputs', 'histories'], 'for every construct in every encoding, every division of the input into calls, and every sequence of questions',
     'the suite asks at a handful of places in one-piece documents; positions are kept relative to a moving buffer and counted piecewise',
     ['src/lib/xmlparse.rs', 'src/lib/xmltok_impl.rs', 'src/lib/xmltok.rs'],
     [('queries', 'src/lib/xmlparse.rs: XML_GetCurrentByteIndex, XML_GetCurrentByteCount, XML_GetInputContext, XML_GetCurrentLineNumber, XML_GetCurrentColumnNumber'),
      ('counting', 'src/lib/xmltok_impl.rs: updatePosition'), ('bookkeeping', 'src/lib/xmlparse.rs: parse, parseBuffer, resumeParser, getBuffer'), ('event ranges', 'src/lib/xmlparse.rs: m_eventPtr and m_eventEndPtr in the processing functions')],
     'abstract interpretation of MIR: counters beside a counting machine on unknown input, linear position arithmetic on all paths, event ranges on all paths of the token loops',
     'Line counting is decided for inputs of any length; that a division of the input between CR and LF counts one line end follows because a trailing CR is left unprocessed.',
     state=[('position', 'lines and columns counted up to a place in the buffer', 'src/lib/xmlparse.rs: m_position, m_positionIdx')])

prop('C08', 'Handlers may use the parser that is calling them',
     'While any handler of the application runs, the parser holds no borrow of anything that a function the handler may call on it needs: setting handlers, data, base or options, asking for positions, stopping, '
     'and creating (and running) parsers for external entities from inside any handler never panics or aborts because the parser\'s own data is in use.',
     ['inputs', 'histories'], 'for every handler, every input that makes it run and every permitted call from inside it',
     'run-time borrow conflicts show only when a particular handler makes a particular call; the tests make few calls from inside handlers',
     ['src/lib/xmlparse.rs', 'src/string_pool.rs'],
     [('declarations behind RefCell', 'src/lib/xmlparse.rs: DTD.tables, DTD.scaffold'), ('string pools behind RefCell', 'src/string_pool.rs: StringPool'), ('handlers called', 'src/lib/xmlparse.rs: CXmlHandlers')],
     'interprocedural dataflow of run-time borrows (RefCell guards) over monomorphic MIR, against the call graph to the handlers',
     'Whole program including the standard library code used. The parsing functions themselves (parse, resume, reset, free), which a handler must not call for the same parser, are outside, as are conversion functions of unknown encodings.')

na('C07', 'How a document is cut into pieces does not change what is reported',
   'For every document and every way of cutting it into pieces (down to single bytes, with empty pieces, through either input function), the sequence of events, up to joining adjacent character data, and the result are the same.',
   ['inputs', 'schedules'], 'for every document and every partition of it', 'the tests cut a few documents in a few ways', ['src/lib/xmlparse.rs', 'src/lib/xmltok_impl.rs'],
   [('tokens at the end of a piece', 'src/lib/xmltok_impl.rs'), ('unconsumed bytes kept', 'src/lib/xmlparse.rs: parse, parseBuffer, getBuffer')],
   'a relational property of two whole runs (a product of two parsers over unbounded histories); its parts are decided separately: partial tokens (C12), bytes kept (C06), steps and suspensions (C04), but their composition is not decided by a static argument in reach')
na('C10', 'All memory taken for a parser is given back',
   'Once a parser and the parsers for its external entities are freed, every byte obtained for them has been released exactly once, on success and on every error.',
   ['inputs', 'histories', 'fault_sequences'], 'for every history of a parser and every point at which it is freed', 'leaks on rare error paths pass unnoticed in tests', ['src/lib/xmlparse.rs'],
   [('raw allocations', 'src/lib/xmlparse.rs: MALLOC!, FREE!'), ('tag and entity stacks', 'src/lib/xmlparse.rs: freeing')],
   'ownership is spread over raw pointers held in bump pools, free lists and shared tables; a sound ownership analysis would have to bound their lengths and sharing, which no static argument here does')
na('C20', 'A refused allocation is reported and leaves the parser fit to be freed',
   'Whenever the allocator refuses memory, the call in progress reports "out of memory", and the parser can still be queried and freed.',
   ['fault_sequences'], 'for every allocation in every run', 'the existing tests fail the first allocations of a few documents', ['src/lib/xmlparse.rs', 'src/string_pool.rs'],
   [('allocation results checked', 'src/lib/xmlparse.rs')],
   'allocations inside the standard containers abort on failure by design of the port; which of them are preceded by a sufficient reservation depends on run-time sizes. Failures at the places the rules model are part of C16, C18, C26 and C27')
na('C21', 'Time and memory are bounded by the size of the input',
   'Processing takes time and memory proportional to the size of the input and of the expanded entities, also for hostile input (hash collisions, tokens split into many pieces).',
   ['inputs'], 'for every input', 'tests measure nothing', ['src/lib/xmlparse.rs'], [('rescanning of partial tokens', 'src/lib/xmlparse.rs: parse'), ('hash tables', 'src/lib/xmlparse.rs: HashKey')],
   'quantifies over run-time cost; partial tokens are rescanned from their start by design, so that the bound is not even linear, and no static cost analysis in reach handles the containers')
na('C23', 'Accepted documents are exactly the well-formed ones',
   'A document is accepted if and only if it is well-formed according to XML 1.0 (fourth edition) and, with namespace processing, Namespaces in XML 1.0.',
   ['inputs'], 'for every document', 'conformance suites hold some thousand documents', ['src/lib'], [('the whole parser', 'src/lib')],
   'a statement about the composition of tokeniser, grammar, entities and namespaces over unbounded histories; the parts are decided by C11 to C16, C26 and C27, the whole is not')
na('C28', 'The canonical output of xmlwf is its own canonical form',
   'The canonical output of xmlwf is itself well-formed, has the same elements, attributes and text as its input, and is its own canonical form.',
   ['inputs'], 'for every document', 'the tests compare the output for a fixed set of documents', ['src/xmlwf'], [('canonical output', 'src/xmlwf/xmlwf.rs')],
   'an equation between the output of one program and a second run of the parser on it; it needs an inverse of the printer, which the analyses here do not construct')

prop('C24', 'The encoding a document starts in is found out from its first bytes',
     'The first bytes of a document or external entity, together with the encoding given from outside (one of the six known ones, or none), decide the encoding it is first read in: the byte order marks of UTF-8 and '
     'UTF-16 are recognised and skipped, a zero byte or "<" followed by one tells UTF-16 without a mark, and otherwise the encoding given from outside, or UTF-8, is used. Marks and zero bytes are not looked for in '
     'external general entities whose given encoding allows those bytes to be something else. As long as the bytes of the first piece could still turn out to be either, nothing is decided. '
     'ISO-8859-1, US-ASCII, UTF-8, UTF-16, UTF-16BE and UTF-16LE, in any mixture of cases, and no other name, are known and stand for their encodings, with and without namespace processing.',
     ['inputs'], 'for every beginning of a document, length of the first piece, given encoding, kind of entity and every encoding name',
     'the tests use few combinations of first bytes, given encodings and lengths of the first piece',
     ['src/lib/xmltok.rs'],
     [('detection', 'src/lib/xmltok.rs: InitEncoding::initScan'), ('names', 'src/lib/xmltok.rs: getEncodingIndex, streqci'), ('what the names stand for', 'src/lib/xmltok.rs: encodings, encodingsNS')],
     'exact evaluation of the detector over all values of the first three bytes and of the name comparison over all strings (abstract interpretation of MIR), against a table of outcomes',
     'The declaration inside the document is not part of it; it follows upstream in which later bytes are looked at.')

prop('C25', 'References to characters stand for exactly the characters they name',
     'In content, attribute values and entity values, and in every encoding, a character reference of any length stands for the character whose number it gives in decimal or hexadecimal (either case), and is refused '
     'as a bad reference if that number is not that of an XML character, however many digits it has; the names lt, gt, amp, quot and apos, and no others, stand for their characters without a declaration in content and attribute values. '
     'The character is reported, appended or stored in the place of the reference.',
     ['inputs'], 'for every reference of any length, in every encoding and every place where references are expanded',
     'the tests use a handful of numbers of few digits; numbers are computed digit by digit in a bounded integer',
     ['src/lib/xmltok_impl.rs', 'src/lib/xmltok.rs', 'src/lib/xmlparse.rs'],
     [('numbers', 'src/lib/xmltok_impl.rs: charRefNumber'), ('which numbers are characters', 'src/lib/xmltok.rs: checkCharRefNumber'), ('predefined names', 'src/lib/xmltok_impl.rs: predefinedEntityName'),
      ('use', 'src/lib/xmlparse.rs: doContent, appendAttributeValue, storeEntityValue')],
     'product exploration of the scanner with the definition, by induction over the digits (abstract interpretation of MIR); exact evaluation over all code points; all paths of a step of the using functions',
     'Numbers of any length by induction; names up to 8 (thorough: 24) characters, longer ones being told apart by length alone.')
