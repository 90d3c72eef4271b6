I = ['inputs']
PX = 'pyslet/pyslet/'

prop('D01', 'Date forms all denote the same day of the Gregorian calendar',
     'For every date from 0001-01-01 to 9999-12-31 the calendar, ordinal, week, absolute-day, Julian and struct_time forms of a Date convert into each other exactly as the proleptic Gregorian calendar (and ISO week rules) say, and dates of one precision are ordered and hashed as the days they denote. '
     'Every basic, extended, reduced-precision and truncated ISO 8601 string form reads back to the value it was formatted from (truncated forms: the earliest such date on or after the base), and offsetting by days, weeks, months, years or centuries lands on the calendar date that arithmetic gives. '
     'Values that are no date (day, month, week, weekday, ordinal or year out of range) are refused by constructors and parser alike.',
     I, 'every day of years 1..9999, every string form and precision, every base within the truncation period, offsets of either sign and any mixture',
     'The tests check a few dozen hand-picked dates (mostly around 1969-07-20); leap, century and week-year boundaries and base/offset combinations number in the millions.',
     [PX + 'iso8601.py'],
     [('Date conversions', PX + 'iso8601.py Date._SetFromAbsoluteDay, _SetFromWeekDay, GetWeekDay, GetOrdinalDay'),
      ('Date parser', PX + 'iso8601.py ISO8601Parser.ParseDateFormat'), ('Date.Offset', PX + 'iso8601.py Date.Offset')],
     module='d01', technique='runtime differential monitor: Date conversions observed against java.time on generated days, strings and offsets',
     rule='each case draws a day around a calendar boundary (year, century, leap day, week-year) or at random and a form/offset; distinct by the day and form drawn; all cases exercise at least one conversion',
     note='Held on the days, forms and offsets generated; java.time.LocalDate is trusted as the calendar.',
     need=dict(days=20000, comparisons=3000, offsets_ok=1500, roundtrips=4000, truncated_roundtrips=2500, rejections=2000))

prop('D02', 'Times, zones, time points and durations keep their value',
     'Every ISO 8601 time, time point and duration string (any precision, decimal fraction, zone and basic/extended style) reads back to the value and format it was written from; mixed styles, out-of-range fields and malformed strings are refused. '
     'Offsetting a time is exact arithmetic modulo one day with the carried days returned, shifting zone keeps the instant, changing precision keeps the value, and truncated times resolve to the earliest time on or after the base. '
     'Time points of one precision compare and hash as instants whatever zone they are written in, while mixed precision and zoned/unzoned comparisons are refused.',
     I, 'all times, zone offsets to 23:59 either way, fractions, precisions, dates 0001..9999, offsets of either sign',
     'Tests use a handful of literals; carries across hour, day, month and year boundaries combined with zones and fractions are unreachable by samples.',
     [PX + 'iso8601.py'],
     [('Time arithmetic', PX + 'iso8601.py Time.Offset, Extend, ShiftZone, WithPrecision'), ('Comparison', PX + 'iso8601.py Time.__cmp__, TimePoint.__cmp__, __hash__'),
      ('Parser', PX + 'iso8601.py ISO8601Parser.ParseTimeFormat, ParseTimePointFormat, ParseDuration')],
     module='d02', technique='runtime monitor: exact rational-arithmetic oracle over observed times, shifts, comparisons and round trips',
     rule='each case draws a time/zone/precision and an operation; distinct by the values drawn; trivial none',
     note='Held on the values generated; exact rational arithmetic is the oracle.',
     need=dict(time_strings=5000, truncated=3000, offsets=5000, points=3000, shifts=4000, comparisons=4000, equal_points=500, precisions=2000, durations=2000, rejections=1500))

PEND = 'monitor under construction'

prop('U01', 'URI parsing, resolution, relativising and equivalence follow RFC 2396',
     'Any URI reference parses into scheme, authority, path, query and fragment that recompose to exactly the original string, its server part into userinfo, host and port, and strings that are no URI reference are refused. '
     'Resolving a reference against a base gives the RFC 2396 section 5.2 result (dot segments, empty references, query-only and network paths included); Relative is its inverse: resolving what it returns against the same base gives the same resource; and resolution against a resolved base associates. '
     'Canonicalisation is idempotent, changes nothing but letter case of scheme and host and redundant escapes and default ports, and Match agrees with it; escaping and unescaping arbitrary bytes round-trips and escapes every character that must be.',
     I, 'all URI references over every character class, all base/reference pairs, all byte strings',
     'The tests sample the RFC examples; combinations of dot segments, empty components, queries, fragments, escapes and ports are unbounded.',
     [PX + 'rfc2396.py'],
     [('Parsing', PX + 'rfc2396.py URI.__init__, SplitServer, ParseURIC'), ('Resolution', PX + 'rfc2396.py URI.Resolve, NormalizeSegments'),
      ('Relativising', PX + 'rfc2396.py URI.Relative, RelativizeSegments, MakeRelPathAbs'), ('Escapes', PX + 'rfc2396.py EscapeData, UnescapeData, CanonicalizeData')],
     module='u01', technique='runtime differential monitor: parse, resolve, relative, canonical forms observed against an RFC 2396 reference model',
     rule='each case generates one URI, pair of URIs or byte string from a hostile grammar; distinct by the strings drawn',
     note='Held on the strings generated; the reference model is a direct transcription of RFC 2396 sections 5.2 and appendix B.',
     need=dict(resolved=10000, parsed=8000, relatives=8000, canonical=6000, associations=5000, escapes=4000, rejections=4000))

prop('U02', 'Virtual file paths and file URLs name the same file',
     'Every absolute file path, whatever characters it holds, turns into a file URL that turns back into the same path, and relative file URLs resolve as the paths they stand for. '
     'join, split, splitext, isabs, abspath, normpath and comparison of virtual file paths agree with the platform path library, and file operations (create, read, write, copy, list, walk, remove, rmtree) on them act on exactly the named files and nothing else.',
     I + ['histories'], 'all path strings, all sequences of file operations',
     'Names with reserved, escaped, control or non-ASCII characters and long operation sequences are not sampled by tests.',
     [PX + 'vfs.py', PX + 'rfc2396.py'],
     [('File URL mapping', PX + 'rfc2396.py FileURL.GetPathname, GetVirtualFilePath, URIFactory.URLFromPathname, URLFromVirtualFilePath'), ('Path operations', PX + 'vfs.py OSFilePath')],
     module='u02', technique='runtime monitor: path operations observed against os.path and a dictionary model of the file tree',
     rule='each case draws a path, a pair of paths or a history of file operations; distinct by what is drawn',
     note='Held on the paths and histories generated, on a POSIX file system, as an unprivileged user in a scratch directory.',
     need=dict(urls=5000, paths=5000, relatives=4000, trees=300), unprivileged=True)

def todo(id, title, statement, over, quant, why, files, mech, **kw):
    kw.setdefault('pending', PEND)
    prop(id, title, statement, over, quant, why, files, mech, **kw)

XM = [PX + 'xml20081126/parser.py', PX + 'xml20081126/structures.py']
prop('X01', 'XML documents survive serialising and parsing',
     'Any document tree of elements, attributes and character data that XML can express comes back from serialise-then-parse with the same names, attributes, children and text; parsing what was serialised again gives the same bytes; and every supported encoding and way of reading a document (string, stream, file) gives the same tree. '
     'Serialised output is well-formed XML to an independent parser, which sees the same content.',
     I, 'all trees, names, attribute values and text over the XML character set, all supported encodings',
     'Tests parse fixed files; escaping, whitespace, entity and encoding interactions are unbounded.', XM,
     [('Serialising', PX + 'xml20081126/structures.py Element.GenerateXML, EscapeCharData, Document.Create, Update'), ('Parsing', PX + 'xml20081126/parser.py XMLParser.ParseDocument')],
     module='x01', technique='runtime differential monitor: documents built, written and parsed by pyslet are observed against the generated tree and a JAXP parser',
     rule='each case generates a tree, a typed document, an encoding of one, a file or a history of edits; distinct by what is drawn',
     note='Held on the trees, encodings and edit histories generated; the JAXP (Xerces) parser is trusted as the independent reader.',
     need=dict(changes=200, documents=4000, escapes=10000, files=250, histories=1000, ids=1000, reads=2500, stable=1000, typed_documents=2000))
prop('X02', 'The XML parser accepts exactly well-formed documents and reads them right',
     'Every well-formed XML 1.0 document is parsed into the content the specification gives it (attribute normalisation and defaults, line ends, character and entity references, CDATA, comments, processing instructions, internal DTD subset), and every document that breaks a well-formedness constraint is refused with a well-formedness error and no other failure. '
     'In validating mode a document is accepted exactly when it satisfies its DTD.',
     I, 'all byte strings; all documents with internal DTDs', 'The W3C suite is not shipped; the tests cover each production with one or two examples.', XM,
     [('Productions', PX + 'xml20081126/parser.py XMLParser'), ('Character stream', PX + 'xml20081126/structures.py XMLEntity')],
     module='x02', technique="runtime differential monitor: the parser's verdict and content on generated, mutated and constraint-breaking documents are observed against a JAXP parser and a DTD model",
     rule='each case generates a document, a mutation of one, a document breaking one constraint, a DTD with a valid or invalid document, or a character; distinct by the document text',
     note='Held on the documents generated; the JAXP (Xerces) parser is trusted for well-formedness and validity outside its listed leniencies.',
     need=dict(characters=2000, constraints=800, invalid=500, line_ends=1000, mutant_refused=1500, mutant_wf=300, valid=500, wellformed=1500))
prop('X03', 'Namespace processing keeps every name in its namespace',
     'Parsing a namespaced document gives every element and attribute the namespace the declarations in scope give it (defaulting, undeclaring, redeclaring and prefix reuse included), serialising a tree declares every namespace it uses so that an independent namespace-aware parser sees the same names, and documents that violate namespace constraints are refused (a prefix that is not declared is tolerated and gives no namespace).',
     I, 'all trees over nested, shadowed and colliding prefixes', 'Tests use a handful of documents with one or two prefixes.', [PX + 'xmlnames20091208.py'],
     [('Name expansion', PX + 'xmlnames20091208.py XMLNSParser.ExpandQName, XMLNSDocument'), ('Prefix allocation', PX + 'xmlnames20091208.py XMLNSElement.WriteXMLAttributes, GetXMLNSPrefix')],
     module='x03', technique='runtime differential monitor: names and scopes observed in parsed, built, edited and rewritten trees against a namespace-aware JAXP parser and a scope model',
     rule='each case generates a namespaced document, a tree built and edited through the interface, a document breaking a namespace constraint or a class map; distinct by the text or tree drawn',
     note='Held on the documents and edit histories generated; the namespace-aware JAXP parser is the independent reader.',
     need=dict(accepted=150, ascii=400, built=1000, classes=1000, copies=50, default_attributes=100, edits=500, prefixes_found=2000, read=1500, refused=800, written=5000))
prop('X04', 'Character classes, XSD datatypes and XSD regular expressions mean what they say',
     'A character class built by any sequence of add, subtract, negate and union operations contains exactly the characters set arithmetic gives, and the built-in Unicode category and block classes agree with Unicode. '
     'XSD literals (boolean, integer, decimal, float, double, dateTime, name types) decode to the value they denote, format to a literal that decodes to the same value, and non-literals are refused. '
     'A translated XSD regular expression matches exactly the strings the XSD expression does.',
     I, 'all sequences of class operations, all literals, all expressions and strings', 'Tests sample a few ranges, literals and expressions.',
     [PX + 'unicode5.py', PX + 'xsdatatypes20041028.py'],
     [('Class arithmetic', PX + 'unicode5.py CharClass'), ('Datatypes', PX + 'xsdatatypes20041028.py'), ('Regular expressions', PX + 'xsdatatypes20041028.py RegularExpressionParser')],
     module='x04', technique='runtime monitoring: random class-operation histories, literals and expressions run through the real code; online oracles are interval arithmetic over boundary code points, java.lang.Character, BigDecimal/Double.parseDouble and a position-set matcher over the generating AST',
     rule='pass iff no oracle disagreed on any observed operation (known finding: repeats of nullable sub-expressions)',
     note="Categories are compared where both the shipped table and Java assign the character; expressions on which only Jython's re engine errs (CPython agrees with the oracle on the same translated expression) are counted, not reported.",
     need=dict(classes=1000, expressions=1500, literals=1000, matched=5000, unmatched=5000))
H = [PX + 'rfc2616_core.py', PX + 'rfc2616_params.py', PX + 'rfc2616_headers.py']
prop('H01', 'HTTP header values parse, compare and negotiate as RFC 2616 defines',
     'Every value of the supported headers and parameters (dates in all three forms, media types, transfer codings, entity tags, ranges, accept lists, versions, URLs, quoted strings) parses into what it says whatever case, spacing, quoting and ordering it is written in, formats to a string that parses to an equal value, and equal values hash alike; malformed values are refused with the documented error. '
     'Content negotiation chooses a representation that no other acceptable one beats on quality, and none when none is acceptable.',
     I, 'all header strings of the RFC 2616 grammar, all accept lists and candidate sets', 'Tests check fixed strings; precedence, wildcard and q-value combinations are unbounded.', H,
     [('Parameters', PX + 'rfc2616_params.py'), ('Headers', PX + 'rfc2616_headers.py'), ('Tokenising', PX + 'rfc2616_core.py WordParser, SplitWords')],
     module='h01', technique='runtime monitor: independent RFC 2616 value models and grammar writers as oracle over generated header texts',
     rule='The monitor generates header values from an abstract model (words, dates, media types, codings, entity tags, accept lists, cache control, content ranges), writes each in a random legal spelling (case, LWS, quoting, null list elements, order), and compares what the real parser returned with the model, the formatted form re-parsed, hash/equality of two spellings, refusal of spellings made malformed in a known way, and negotiation results with an exhaustive evaluation of RFC 2616 14.1-14.4 over the candidates.',
     note='The oracle is separate code over the abstract model; sampling, not enumeration, so absence of violations covers the sampled values only.',
     need=dict(accept_lists=500, bad_words=200, dates=500, headers_0=100, headers_1=100, headers_2=100, headers_3=100, headers_4=100, headers_5=100, media_types=500, selected=300, token_lists=500, tokens=500, unacceptable=50, word_lists=500))
prop('H02', 'HTTP messages keep their framing',
     'However the bytes are split across reads and writes, the server sees each queued request exactly once with the request line, headers and entity body it was given, and the client sees the status, headers and entity body the server sent, no byte more or less, for content-length, chunked and close-delimited bodies, over pipelined, reused and closed connections, with interim responses, 100-continue and trailers. Every queued request finishes exactly once with its own complete response, or with status 0 and an error when the response was malformed or cut short; non-idempotent requests are not pipelined, and the connection limit is kept across threads.',
     ['inputs', 'schedules'], 'all message sequences, body sizes and read/write splittings', 'Tests use one fixed scripted server.', [PX + 'rfc2616.py'],
     [('Framing', PX + 'rfc2616.py HTTPMessage, HTTPRequest, HTTPResponse, ChunkedReader'), ('Connections', PX + 'rfc2616.py HTTPConnection, HTTPRequestManager')],
     module='h02', technique='runtime monitor: scripted peer with an independent HTTP parser and event log, injected splits, delays, truncation, resets and malformed messages, online and offline checks',
     rule='The real request manager and connections run against in-memory sockets whose server end is separate code: it parses the request bytes strictly, logs every request, and writes scripted responses (all framings, interim responses, trailers, folding, early and late replies, truncated or malformed messages, hang ups) cut at random points; sends and receives take random amounts and readiness is random. Online checks: one arrival per request, exact method, target, headers and body, no body before the 100 it waits for, no POST sent before earlier responses were consumed, no stall (nothing readable or writable while requests are outstanding). Offline checks over the log: each request finished once, with exactly the scripted response if the client consumed all of it, and with status 0 and an error otherwise. A threaded family runs several real threads over a limited pool and checks the same plus the limit and the absence of deadlock.',
     note='Outcomes on a connection whose send failed are accepted as either response or error. Schedules are sampled. TLS and real DNS are not exercised.',
     need=dict(broken=20, contended=15, continues=100, delivered=1500, early=50, failed=300, framing_chunked=300, framing_cl=300, framing_close=100, framing_none=200, interim=200, no_location=100, pipelined=100, posts=200, redirects=200, silent=5, thread_runs=30, truncated=50))
prop('H03', 'HTTP credentials go only where they may',
     'Basic challenges and credentials format and parse back to the same realm, user and password; a credential is offered only to a resource within its protection space (scheme, host, port and path prefix) and the first registered match is chosen; credentials never match another host, port or scheme.',
     I, 'all sets of credentials and requested URLs', 'The tests have four fixed cases.', [PX + 'rfc2617.py', PX + 'rfc2616.py'],
     [('Matching', PX + 'rfc2617.py BasicCredentials.TestURL, Match, TestChallenge'), ('Selection', PX + 'rfc2616.py HTTPRequestManager.FindCredentials')],
     module='h03', technique='runtime monitor: protection-space reference model checked against every URL, challenge and Authorization header observed leaving the client',
     rule='Generated challenges and lists of challenges are parsed, formatted and parsed again and compared with the abstract model; basic credentials out and back; sets of credentials with hosts, ports, schemes, realms and known-good paths are queried with URLs near and outside each space and compared with an independent model of origin and path containment; whole conversations against a scripted server (401s, redirects within and across servers, good and bad passwords, several challenges per response) are logged and every Authorization header that arrives is checked against the space of the credentials it carries and, when unasked, against the paths already known good.',
     note='Digest and other schemes are not implemented by the library beyond parsing challenges.',
     need=dict(authenticated=50, authorized=200, basics=500, challenge_lists=300, challenged=300, challenges=1000, colons=100, default_realm=50, offered=200, redirected=200, refused=20, removed=50, same_path_other_host=100, unasked=30, withheld=1000))
OD = PX + 'odata2/'
prop('O01', 'EDM simple values keep their value in every form',
     'Every EDM primitive value survives its literal, JSON, URI-literal and Python forms unchanged (Binary, Boolean, Byte, SByte, Int16-64, Single, Double, Decimal, DateTime, DateTimeOffset, Time, Guid, String), NULL included (date and time values to the precision their property declares); values and literals outside the type\'s range or syntax are refused and leave the value alone; casts between types follow the promotion rules; complex values keep every nested property, and copies share nothing with their source.',
     I, 'all values and literals of every EDM type', 'Tests check several literals per type.', [OD + 'csdl.py', OD + 'core.py'],
     [('Values', OD + 'csdl.py SimpleValue and subclasses'), ('Literals', OD + 'core.py ParseURILiteral, FormatURILiteral, EntityToJSON')],
     module='o01', technique='runtime monitor: independent value models and literal grammars checked against every value written and read in literal, URI, JSON and XML form',
     rule='Generated values of all fifteen EDM types (range ends, special floats, 29-digit decimals, 100 ns times, zones, any text and bytes) are set, written as literal, URI literal, JSON and XML, checked against an independent grammar and decoder for each form, read back and compared with type and Python type; literals generated at and around every limit and mutated are accepted exactly when an independent grammar and range says so; values set from any Python number, string, datetime or unix time are compared with exact BigDecimal or calendar arithmetic; NULL, copy, cast, promotion, failed sets, nested complex values (JSON, XML, overlapping types) and name tables are compared with models.',
     note="Range and syntax limits are those of the library's documentation. Facets other than precision are not enforced by the library and not asserted. Non-canonical times with omitted zeros, 24:00 and leap seconds are left open.",
     need=dict(accepted=1500, casts=800, json_dates=300, nested=200, nulls=2000, numbers=2000, overlaps=150, refused=1500, refused_values=700, uri_literals=5000, values=5000))
prop('O02', 'OData filter, orderby and other expressions evaluate as the specification says',
     'A common expression parses with the OData precedence and associativity, evaluates on any entity to the value the specification gives (promotion, NULL propagation, two-valued logic of OData, canonical functions), and written back out and parsed again gives an equal result; malformed expressions are refused.',
     I, 'all expressions over all operators, functions, literals and properties; all property values including NULL', 'Tests have single-operator examples; nesting and NULL combinations are unbounded.', [OD + 'core.py'],
     [('Parser', OD + 'core.py Parser.ParseCommonExpression'), ('Evaluation', OD + 'core.py CommonExpression subclasses')],
     module='o02', technique='runtime differential monitor: expression trees printed by an independent printer, parsed and evaluated by the library, compared with an independent evaluator',
     rule='Trees over all operators, functions, literal types, simple, complex and navigation properties (with names that resemble keywords) are printed with random spacing and redundant brackets by a printer with its own precedence table, parsed, evaluated on stored entities (null members and navigation included), and the type, nullness and value compared with an independent evaluator; the expression is written out, re-parsed and evaluated again. Unbracketed operator chains are checked against a separate precedence-climbing builder. Expressions broken in a known way must raise ValueError, undefined operations EvaluationError. orderby lists keep items and directions and round-trip.',
     note='Left open (not asserted): Byte, SByte and Int16 arithmetic within one type, Single rounding beyond 1e-5, Decimal results beyond 26 digits, equality of Boolean, Time and DateTimeOffset, untyped null given to strict function parameters, negative substring positions, empty search strings. null operands of and/or give false as the library tests state.',
     need=dict(chains=6000, errors=300, evaluated=15000, nulls=2000, orderby_refused=1500, orderings=5000, ranges=20, refused=2500, values=8000))
prop('O03', 'OData resource paths and query options round-trip',
     'Every OData URL (resource path with keys, navigation, complex and primitive properties, $value, $links, $count, $batch, $metadata; system and custom query options) is parsed to the components it names whatever characters keys and values hold, is written back to a URL that parses to the same request, and malformed or misplaced options are refused.',
     I, 'all entity keys, navigation paths and option combinations', 'Tests sample a few URLs per option.', [OD + 'core.py'],
     [('ODataURI', OD + 'core.py ODataURI, ParseKeyPredicate, FormatKeyDict, ParseExpandOption, ParseSelectOption')],
     module='o03', technique='runtime round-trip monitor: locations of real entities and URLs built segment by segment in any legal escaping are parsed by the library and compared with what was written',
     rule='Entities of sets with every key type and composite keys produce locations, which are read by an independent reader and by ODataURI, then back to keys; URLs are generated from segments, key predicates, path options, system and custom options in random legal escapings and order (absolute, relative, with service prefixes) and every component of the parsed request, and of the request rewritten by the library, is compared with the generator; options that do not belong and malformed text must be refused; paths that only share characters with the service root are not owned.',
     note='Characters beyond the BMP are left out of keys (Jython cannot index strings that contain them).',
     need=dict(foreign=300, keys=9000, misplaced=250, opt_expand=400, opt_filter=400, opt_orderby=400, opt_select=400, own=200, params=800, predicates=1500, refused=2000, rewritten=1200))
prop('O04', 'An entity collection behaves as a mapping with queries',
     'After any history of inserts, updates, replacements, merges and deletes an in-memory entity collection holds exactly the entities that history leaves: lookup, length, membership, iteration, iterpage, filter, orderby, skip, top and skiptoken all agree with one another, every entity appears on exactly one page in order, failed operations change nothing, duplicate and missing keys are refused, and returned entities never share state with the store.',
     ['histories', 'inputs'], 'all histories of operations and all combinations of query options and page sizes', 'Tests check short fixed sequences.', [OD + 'memds.py', OD + 'csdl.py', OD + 'core.py'],
     [('Storage', OD + 'memds.py InMemoryEntityStore, EntityCollection'), ('Paging', OD + 'csdl.py EntityCollection.iterpage, core.py')],
     module='o04', technique='runtime model-based monitor: random operation histories and queries on in-memory containers checked against an independent dictionary model after every step',
     rule='Random histories (insert, duplicate and hidden duplicate insert, partial insert, automatic key, full and partial update, scribbling on returned entities, delete in every form, stale update, assignment, copy, media streams) over entity sets with every property type, complex values and single and composite keys, with lookup, length, membership, iterators and every stored value compared with the model; queries with random filters, orderings and selections over tied and null values, walked in pages with top, skip, server page limits and skiptokens handed to other collections.',
     note='Ties of an ordering are only required to be consistent across the pages of a collection. Characters beyond the BMP are left out (Jython).',
     need=dict(deletes=900, duplicates=800, inserts=4000, missing=400, multipage=700, pages=6000, partial_updates=600, queries=6000, stale=150, streams=100, tokens=1000, updates=1500))
prop('O05', 'Navigation links stay symmetric and respect multiplicity',
     'After any history of creating, binding, replacing, unbinding and deleting entities and links in the in-memory container, each link is seen from both ends, one-to-one and zero-or-one ends never hold two entities, required ends are never left empty, no link leads to a deleted entity, and failed operations leave links unchanged.',
     ['histories'], 'all histories over every combination of multiplicities and of one- and two-way navigation', 'Tests build one small network.', [OD + 'memds.py', OD + 'csdl.py'],
     [('Links', OD + 'memds.py InMemoryAssociationIndex, NavigationEntityCollection'), ('Deferred binding', OD + 'csdl.py DeferredValue, Entity')],
     module='o05', technique='runtime model-based monitor: random association schemas and histories on in-memory containers checked against an independent rule model after operations',
     rule='Each case generates entity sets and associations of random multiplicities (1, 0..1, *), navigable from one or both ends, including an entity set associated with itself, then runs a random history of inserts (bound to keys, entities and new entities to any depth), insertion and linking through navigation, unlinking, replacing, updates with bindings, deletes with cascades and work on stale entities. Whether each operation is allowed and the links and entities that result come from an independent implementation of the multiplicity rules; both directions of every navigation, single-entity reads, filters, pages and nested expansions are compared with it, and refused operations must change nothing.',
     note='Where a cascade meets a link it may not follow to an entity that goes anyway, either outcome is accepted.',
     need=dict(bound_inserts=900, cascades=60, deep=600, deletes=600, expansions=1200, insert=5000, link=900, navinsert=500, navqueries=800, nonempty_linksets=15000, refused_insert=3000, refused_link=600, refused_replace=400, refused_update=300, replace=700, stale=150, unlink=120, update=700))
prop('O06', 'The in-memory store is safe under concurrent use',
     'Operations issued by several threads on one in-memory container each take effect atomically: histories per key are linearizable, generated keys are unique, no update is lost, no operation fails with an internal error and indexes agree with the store when the threads finish.',
     ['schedules', 'histories'], 'all interleavings of operations of several threads', 'No test starts a second thread against one container.', [OD + 'memds.py'],
     [('Locking', OD + 'memds.py InMemoryEntityStore.container lock, InMemoryAssociationIndex')],
     module='o06', technique='runtime concurrency monitor: threads on one container with delays injected line by line, histories checked for linearizability, atomicity, isolation and link invariants',
     rule='Two to six threads run random operations on a shared in-memory container while a per-thread trace function parks threads at random lines of the store. Recorded histories with invocation and response times are searched for a linearization of each entity as an atomic register (with torn values detected on every read); automatic keys must be distinct and no insert lost; threads updating different properties must not undo each other; iterations must see everything stable and nothing unknown; streams and their hashes stay together; failed transactions are never visible; and after link histories under every multiplicity both directions agree, nothing dangles and multiplicities hold. No thread may raise an undocumented error or hang.',
     note='Schedules are sampled, not enumerated; evidence counts the injected switches and overlapping operations seen.',
     need=dict(autokeys=1500, isolated_reads=800, isolated_writes=500, iterations=300, link_states=450, operations=3000, overlaps=300, partial_updates=1500, stream_hashes=100))
prop('O07', 'The OData server answers every request as the protocol says',
     'For any request the server gives a well-formed OData response (status, headers, Atom or JSON body, error document), reads never change the data, a successful write changes exactly what it names and a refused one nothing, what a client reads back in Atom and JSON are the same, paging and $count agree with the data, and no request makes the server fail with an internal error.',
     ['inputs', 'histories'], 'all request methods, URLs, headers and bodies over any stored data', 'Tests issue about a hundred fixed requests.', [OD + 'server.py', OD + 'core.py'],
     [('Dispatch', OD + 'server.py Server.HandleRequest'), ('Responses', OD + 'server.py Return* methods')],
     module='o07', technique='Runtime monitoring of the real WSGI server: a client model predicts status, headers and effects of every request; independent Atom and JSON readers; whole-store comparison after every request; hostile requests',
     rule='Random stores are served through the real WSGI application. Reads of entities, feeds, links, properties, raw values, counts and navigation with every option and both formats are decoded by independent Atom and JSON readers and compared with the stored values, with feeds walked through their next links and HEAD compared with GET; write histories (create, deep links, update, property, $value, media, link and delete requests) predict the status and the whole store after each request; requests from URL, header, method and body mutation must be answered with a well-formed non-500 response, and a refused one must leave the store unchanged; the service document, metadata and capability negotiation are checked. Every response is checked for WSGI and HTTP conformance.',
     note='requests are issued through the WSGI interface in one process; batch requests and service operations with parameters are not implemented by the server and are only required to be refused',
     need=dict(creates=250, deletes=60, entities_atom=500, entities_json=500, feeds=800, hostile_refused=1500, link_writes=700, links_read=400, lookups=9000, property_writes=500, services=60, updates=250))
prop('O08', 'The OData client sees the data the server holds',
     'Operations made through the client library on a served container give the results the same operations give on the container itself, whatever the values, keys, filters, paging and navigation used.',
     ['histories', 'inputs'], 'all histories of collection operations through the client', 'Tests of the client need a public server and are not run.', [OD + 'client.py', OD + 'server.py'],
     [('Client collections', OD + 'client.py EntityCollection, NavigationEntityCollection')],
     module='o08', technique='Runtime monitoring of the real client against the real server over an in-process HTTP transport: model of the contents and links, compared through the client and directly in the store after operations',
     rule='The real client library, its HTTP connections included, talks to the real WSGI server through in-process sockets that split and close at random, with random server page limits. Random histories of collection operations over sets with every property and key type, queries with filters, orderings, selections and pages, media streams, and link histories over random association schemas (deep inserts, links, replacement, expansion, navigation queries) are checked against the same rule models used for the in-memory store, both as the client sees them and as the server holds them; refused operations must leave the server unchanged.',
     note='one client thread; operations that take several requests (insert into a navigation property, update with several bindings) may be refused half way and are then only required to leave the client seeing what the server holds; creating media streams is not supported by the client',
     need=dict(deletes=30, insert=80, inserts=60, linksets=200, lookups=1200, nonempty_linksets=90, pages=250, queries=100, requests=8000, updates=70))
prop('O09', 'Metadata documents describe the model and are checked',
     'A CSDL or EDMX document that is consistent loads into a model with every type, property, facet, key, entity set, association and function import it declares, is unchanged by write and reload, and a document with a duplicate declaration, or whose references (checked strictly) are undeclared, of the wrong kind or contradictory, is refused, as are OData annotations the protocol does not allow; read leniently, a faulty reference is left unbound and nothing else is disturbed.',
     I, 'all schemas over every construct and every single fault', 'Tests load a few fixed documents.', [OD + 'csdl.py', OD + 'edmx.py', OD + 'metadata.py'],
     [('Schema', OD + 'csdl.py Schema, EntityContainer, AssociationSetEnd'), ('EDMX', OD + 'edmx.py, metadata.py')],
     module='o09', technique='Runtime monitoring of metadata loading: every declared name, attribute and reference of generated documents is looked up in the loaded model, the written form is compared through an independent DOM parser, and single-fault mutants are watched for acceptance or half-bound references',
     rule='Consistent models over several schemas, types of every simple and complex property and facet, composite keys, associations (self-associations, one-way, default roles, blank association set roles), several containers, entity sets of one type and function imports are generated with random layout, loaded, compared name by name and reference by reference, written, reloaded and compared again; one fault of some sixty kinds is planted and must be refused on load or by the strict check; OData annotation rules, attribute values and name tables are driven separately',
     note='aliases, Using elements and type inheritance are not resolved by the library and not claimed; badly formed attribute values are refused when set but an XML reader that does not raise validity errors ignores them; an association set whose roles name the other type is accepted (the shipped sample document does so)',
     need=dict(asets=2500, backlinks=1500, bound=300, clashes=4000, funcs=900, invalid=300, models=400, properties=15000, refused_on_load=600, refused_strict=300, values=800))
prop('O10', 'The SQL data store keeps the same contract as the in-memory one',
     'Any history of inserts, updates, deletes, queries, pages, links, deep inserts and cascades on the collections of an SQL-backed container gives the results and final contents the data model defines, the same as the in-memory container gives, whatever the values and keys used: values never reach SQL as code, an operation that is refused or that the database fails part way changes nothing, and no connection is left locked or with a transaction open.',
     ['histories', 'inputs', 'faults'], 'all histories and values, a database failure at every statement', 'The suite for this module cannot run here (no sqlite3 under Jython) and tries a few fixed operations.', [OD + 'sqlds.py'],
     [('SQL collections', OD + 'sqlds.py SQLEntityCollection, SQLCollectionBase'), ('Links', OD + 'sqlds.py SQLForeignKeyCollection, SQLReverseKeyCollection, SQLAssociationCollection'), ('Parameters', OD + 'sqlds.py SQLParams'), ('Transactions', OD + 'sqlds.py SQLTransaction')],
     module='o10', technique='Runtime monitoring of the real SQL store over the real SQLite library (its JDBC driver behind a DB-API adapter): model of contents and links compared after operations, every statement watched for values in its text, failures injected at the nth statement or commit, and the connection pool and open transactions inspected after each operation',
     rule='Entity sets with every property and key type, complex types and composite keys get random histories of collection operations (partial inserts and updates, stale entities, duplicates, copies), with every string carrying a hostile sentinel in a share of them; queries with filters, null comparisons, orderings, selections, pages and tokens are compared with an independent evaluator; random association schemas get histories of inserts bound to keys, entities and new entities to any depth, navigation inserts, links, replacement, cascades, navigation queries and expansion, with foreign keys enforced; and operations are made to fail at a random statement or commit, after which the store must be as it was and the same collection must go on working',
     note='only the SQLite container can run; comparisons and negation of NULL follow SQL, times are whole microseconds, decimal keys, generated keys, media streams, entity sets linked to themselves and 0..1 to 0..1 associations are left out, links are checked with foreign keys enforced, linking what is linked already and replacing 1-1 links may be refused, and string functions in filters are not driven',
     need=dict(bound_inserts=273, cascades=26, copies=71, deep=189, deletes=313, duplicates=284, expansions=219, fault_cascade=73, fault_clear=85, fault_del=103, fault_insert=245, fault_len=61, fault_lookup=79, fault_navinsert=21, fault_page=65, fault_update=175, fault_values=63, filtered=571, insert=1417, inserts=542, linksets=8377, lookups=7940, marked=49, multipage=205, navinsert=215, navqueries=226, nonempty_linksets=4625, pages=1737, partial_inserts=130, partial_updates=134, queries=945, refused_insert=641, refused_update=134, stale=100, statements=290261, tokens=284, updates=337))
QV = [PX + 'qtiv2/variables.py', PX + 'qtiv2/expressions.py']
prop('Q01', 'QTI expressions evaluate as the specification says',
     'Every QTI 2.1 expression gives the value the specification defines for any operand values, cardinalities and NULLs (ordering, containers, records, tolerance and rounding modes, regular expressions, random operators within bounds), values parse from and format to XML unchanged, and base-type mismatches are refused.',
     I, 'all operand values, cardinalities and NULLs of every operator', 'Tests check one or two cases of each operator.', QV,
     [('Operators', PX + 'qtiv2/expressions.py'), ('Values', PX + 'qtiv2/variables.py Value, Container')],
     module='q01', technique='Runtime monitoring of expression evaluation: every expression run by the real engine in a live session state is compared, value, type and cardinality, with an independent exact evaluator of the specification, and the session state is watched for disturbance; draws of the random operators are monitored for range and coverage',
     rule='Items declaring response, outcome and template variables of every type and cardinality with defaults, correct responses and mappings are generated together with typed (and a share of ill typed) expression trees over all 41 operators, written as XML, loaded and evaluated; value texts (good, bad, round trip), containers, record histories, random operators and lookup tables are driven separately',
     note='integer overflow of sum, product and subtract, tolerance limits that depend on float rounding, ties of rounding modes, points exactly on the edge of a polygon and relative tolerance of negative values are not settled by the specification and skipped',
     need=dict(bad=450, containers=1100, draws=15000, evaluated=10000, lookups=3000, nulls=2000, op_anyN=45, op_contains=200, op_delete=800, op_equal=200, op_equalRounded=200, op_index=500, op_inside=180, op_mapResponse=110, op_mapResponsePoint=60, op_patternMatch=120, records=1000, refused=1500, spreads=250, texts=1400))
prop('Q02', 'QTI item and test sessions follow the rules as written',
     'Template and response processing executes exactly the rules written, in order and with the defined control flow, so every template, response and outcome variable, default and correct value has the value the item defines after each event of a session (clone, begin, attempt, save, submit), non-adaptive outcomes start afresh each time, and submitted form values are parsed or refused; rules that do not fit the declarations are refused. A test form is always a valid selection and ordering of the sections and items, with every permitted one possible; a linear test session visits the items that preconditions and branch rules lead to, sets template defaults, keeps durations, presents the current controls, and accepts events only with the current, never reused, session key.',
     ['inputs', 'histories'], 'all rule programs, responses, test structures and event histories', 'Tests run a handful of fixed rules and a few fixed test forms.', [PX + 'qtiv2/processing.py', PX + 'qtiv2/tests.py', PX + 'qtiv2/variables.py'],
     [('Rules', PX + 'qtiv2/processing.py'), ('Sessions', PX + 'qtiv2/variables.py ItemSessionState, TestSessionState'), ('Selection', PX + 'qtiv2/tests.py TestForm')],
     module='q02', technique='Runtime monitoring of session histories: random items and tests are loaded by the real engine and random candidates (interleaved sessions of one document) drive it through clone, begin, attempt, save, submit and wrong-key events; after every event every variable, default and correct value, the question on display, durations, keys and rendered controls are compared with an independent model of the specification; test forms are checked by a recursive validity oracle and repeated draws are monitored for coverage of the permitted forms',
     rule='Items with response, outcome and template declarations of all types get random nested template and response programs (conditions, sets of every kind, exits, a share of ill typed ones) and random submissions (good and bad); section trees get random visibility, grouping, fixed and required parts, selection with and without replacement and shuffling; tests get preconditions, branch rules, template defaults, outcome declarations and a controlled clock',
     note='outcome processing of tests, nonlinear navigation and simultaneous submission are not implemented in the library (NotImplementedError); branches to parts that are not ahead in the form, NaN equality and what Q01 lists as unsettled are skipped; submission of record responses is not implemented',
     need=dict(arm_taken=600, bad_submissions=130, branch_EXIT_SECTION=35, branch_EXIT_TESTPART=50, branch_target=35, else_taken=800, exits=500, fixed_kept=1500, forms=8000, mixed_sections=400, positions=350, refused=400, saves=3000, selection_errors=900, skipped_item=120, skipped_section=140, steps=1200, submits=2500, template_defaults=80, varied_tests=180, wrong_keys=190))
prop('Q03', 'Migrating QTI v1 keeps the meaning of each item',
     'Every QTI v1.2 document of the supported kinds (choice, text, numeric, slider, hotspot and point responses) migrates to a QTI v2.1 package whose items present the same text, images, choices and areas in the same order, with the limits, shuffling and defaults the v1 item sets, and score every response, setting every outcome and showing the feedback, as the v1 item does; every item, its resource, files, metadata, objectives and rubric are present once, and migrating again gives the same. Constructs that cannot be migrated are refused with QTIError or reported in the log, and a v1 document written out has all it was read with.',
     I, 'all v1.2 items of the supported interaction types, responses and outcome rules', 'Tests compare fixed example files.', [PX + 'qtiv1', PX + 'imsqtiv1p2p1.py', PX + 'imsqtiv2p1.py'],
     [('Migration', PX + 'qtiv1/item.py, section.py, common.py MigrateV2*')],
     module='q03', technique='Runtime monitoring of migration: generated v1 items, sections, assessments and banks are migrated by the real code into a content package, which an independent Java DOM reader compares with the model (reading order, interactions, choices, areas, declarations, feedback, metadata, files), and every migrated item is run in the real v2 engine on random answers against an independent v1 scorer',
     rule='Items with choice, text, numeric, slider, hotspot and point responses, material of every text and image kind, labelled and referenced material, flows, rubric, objectives, outcomes of every type, chains of continuing and stopping conditions and feedback are generated and written in random v1 layouts, alone and nested in sections, assessments and object banks (with clashing identifiers); v1 documents are also written back and compared; some thirty-five unsupported or faulty constructs must be refused or reported in the log and the package; area conversion, bounds and offsets are tested point by point',
     note='a response without value is taken to make a condition unknown, as v2 has it; constructs v2 cannot express (ordered responses, hints, response groups, several blanks in one response) are only watched for refusal or a warning; whitespace between words of adjacent materials is not compared',
     need=dict(area_points=150000, bank_items=300, body_tokens=10000, continued=1400, extended=60, feedback=1100, field_choice=370, field_hotspot=50, field_num=50, field_numslider=75, field_slider=70, field_str=210, field_xy=40, images=700, kind_assessment=12, kind_bank=25, metadata=1500, points=5000, rules_true=8000, scored=9500, shuffled=180, stopped=3400, text_entry=190, twice=140, unlimited=85, written=70))
prop('P01', 'Content packages keep their manifest, files and zip in step',
     'After any history of adding, copying and deleting resources, files and dependencies, a content package exported to a zip and imported again has the same manifest, hierarchy and file contents, deletes only its own files, gives unique identifiers and names, and never writes outside its directory whatever the manifest or zip contains.',
     ['histories', 'inputs'], 'all histories of package edits; all file names and zip contents', 'Tests edit small fixed packages.', [PX + 'imscpv1p2.py'],
     [('Package', PX + 'imscpv1p2.py ContentPackage')],
     module='p01', technique='Runtime monitoring of package histories: after every operation the real package directory, file table, manifest objects and the world outside the package are compared with a model, file system calls are hooked so that any write outside the package is blocked and recorded, and zips and manifests are read by independent Java parsers',
     rule='Packages (temporary, new, from existing directories) take random histories of creating, referring to, copying, deleting and renaming clashes of files with awkward names, entry points, dependencies, external files, xml:base, refused operations that try to escape or to touch the manifest, reloads and zip round trips; hostile zips, hostile manifests, linked files and path arithmetic are driven separately',
     note='symbolic links that lead out of the package are packed as the files they name; deleting the last file of a resource leaves its entry point attribute; nested manifests are not scanned',
     need=dict(collisions=170, copies=220, deletes=340, foreign=1000, inside=1400, links=40, local=600, refusals=850, refused_dirsize=110, refused_duplicate=80, refused_escape=400, reloads=280, renamed=310, states=6500, unpacked=200, zips=270))
prop('A01', 'Atom feeds, entries and publishing keep their content',
     'Atom feeds and entries (text constructs, persons, links, categories, content, dates, ids) and APP service documents give the program the values the document holds, are unchanged when written out, copied or read back, and read the same by an independent parser; text set by a program is returned as set, and replaces what was there. The publishing server serves its service document at the service root, and the request-body wrapper yields the bytes of the request, all of them and no more, through any mix of reads, lines, blocks and seeks.',
     ['inputs', 'histories'], 'all feeds, entries and service documents; all request bodies and call sequences', 'Tests read a few example documents and one request body.', [PX + 'rfc4287.py', PX + 'rfc5023.py'],
     [('Atom', PX + 'rfc4287.py'), ('APP', PX + 'rfc5023.py')],
     module='a01', technique='Runtime monitoring of documents and wrapper histories: documents generated from a model are loaded by the real code and every typed attribute, child list and value is compared with the model; what it writes and copies is read by an independent XML parser and compared with the model; the request wrapper runs random call histories over a recording input stream that reports any read past the body',
     rule='Feeds, entries, sources, service and category documents with random prefixes, layouts, CDATA, foreign markup, languages and bases are loaded, inspected, written, reloaded and copied; text constructs take random histories of text, html, xhtml, cleared and bad values; dates come from strings, points and the clock; the body wrapper takes random histories over exact, short, unknown and over-long streams with short reads; the server is asked for paths at and beside its root',
     note='white space inside written text is folded by the XML writer by design (xml:space is X01 to X03), so written documents are compared with space folded; nested atom:source defaults and reset feeds are only checked for entries',
     need=dict(app_documents=150, collections=300, date_values=400, dates=1200, documents=250, entrys=550, feeds=350, input_ops=3500, links=1200, missing=70, persons=2500, resets=80, seeks=380, served=30, set_html=170, set_text=360, set_xhtml=190, sources=120, text_html=650, text_media=120, text_xhtml=650))
prop('B01', 'Basic LTI launches are accepted exactly when signed',
     'A launch is accepted exactly when it carries a valid signature made with the consumer\'s secret over what was received and its nonce is fresh; any change to the parameters, URL, method, key, secret, time or nonce of a signed launch, an unknown consumer, an old time stamp or a replay (in any order, from any number of threads at once) is refused with BLTIAuthenticationError; what is accepted returns exactly the consumer and the parameters that were signed. Generated keys and secrets have at least the bits asked for, and the consumers saved to a file are the consumers loaded from it.',
     ['inputs', 'histories', 'schedules'], 'all launch parameters, all tamperings, all histories and interleavings of launches', 'Tests sign one fixed launch.', [PX + 'imsbltiv1p0.py'],
     [('Launch', PX + 'imsbltiv1p0.py BLTIToolProvider.Launch')],
     module='b01', technique='Runtime monitoring of launch histories and interleavings: launches signed by an independent RFC 5849 signer are sent to the real tool provider under a controlled clock, intact, tampered with, replayed and from many threads at once; an oracle decides from the history which must be accepted and what they must return',
     rule='Providers with loaded and generated consumers take histories of launches (header, body and URL transport, awkward parameters, default ports, several consumers sharing nonces) with replays after any delay; every kind of tampering is applied to signed launches; nonce windows are driven against a model; groups of threads launch the same and different requests at once; key generation is run over stub entropy sources',
     note='the oauth 1.0.1 library the module builds on keeps only the first of repeated parameters, drops blank ones and decodes values twice, so those are not generated; PLAINTEXT signatures protect the secret only and are checked for that; time stamps in the future are accepted by the library; keys with spaces cannot be represented in the consumer file; a nonce used by a launch with a bad signature counts as used',
     need=dict(accepted=1200, accepted_body=500, accepted_header=250, accepted_url=250, key_ops=1500, keys=1000, nonces_new=5000, nonces_used=1900, orders=50, plaintext=180, replays=430, saved=140, shared_nonces=90, tampered=1200, threads=400, unsigned=330, weak=140))
prop('R01', 'HTML in any legal spelling keeps all of its content in a valid tree',
     'HTML documents, whatever tags are omitted, cased or unquoted, parse to a tree that contains all their text and elements in order and is valid against the HTML content model, and serialise to a document that parses to the same tree.',
     I, 'all HTML tag soups', 'Tests parse fixed snippets.', [PX + 'html40_19991224.py'],
     [('Parser', PX + 'html40_19991224.py XHTMLDocument, GetChildClass')],
     module='r01', technique='runtime monitoring: generated HTML documents in every legal spelling, tag soups and late head elements, parsed and written by the real code while a tree oracle, a content-model checker and a text and element conservation checker watch',
     rule='Documents generated from the HTML 4.01 content model are written with random case, quoting, short attributes, references, comments and omitted tags (and as XML) and must parse to the tree they came from; tag soups must keep every word and element in order in a tree valid against the model; head elements met late must move to the head without loss; every tree is written and read back',
     note='Framesets are outside (the parser refuses them), SGML exclusions such as a inside a are generated around and not checked in soups. Soups with table, list or form parts outside their parents may be refused with the parser errors; others may not. White space is compared folded, and dropped at the edges of elements and beside blocks, except in pre, textarea, script and style.',
     need=dict(accepted=5000, asides=5000, bare_amp=600, contained=250000, documents=5500, late=3500, named_refs=5500, omitted=25000, omitted_li=2200, omitted_option=500, omitted_p=2700, omitted_tbody=900, omitted_tr=2000, round_trips=10000, short_attrs=1700, soup_elements=18000, unquoted=30000, xml_documents=2700))