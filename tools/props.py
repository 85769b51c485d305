"""The properties: one dict each. gen.py renders them."""
TEST = 'The tests parse a handful of fixed strings; '
PROPS = []


def P(id, title, statement, over, all, why, files, mech, technique, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why,
                      files=['src/' + f for f in files], mech=mech, technique=technique, note=note))


AI = 'path-sensitive abstract interpretation over MIR'

P('C01', 'An inbound message is attributed to the session its own fields name',
  'For every raw text, each component of the session identity derived from it (begin string, sender and target company, sub and '
  'location id) is exactly the value of the first FIX field with that component\'s tag (8, 49, 50, 142, 56, 57, 143), recognised only '
  'where a field starts (start of text or right after the field delimiter) and ending at the next delimiter or the end of the text. '
  'The reversed identity swaps the sender and target tags. An absent field gives an empty or absent component.',
  ['inputs'], 'every received text, however fields are ordered, repeated, truncated or embedded in other fields\' values',
  'The tests look up ids of two or three well formed messages; tags that end in another tag\'s digits, delimiters at either end and '
  'missing fields are unbounded in number.',
  ['message.rs', 'session/session_id.rs'],
  [('tag lookup in raw text', 'src/message.rs: extract_field_value'), ('session id derivation', 'src/message.rs: Message::get_session_id, get_reverse_session_id'),
   ('session id builder', 'src/session/session_id.rs: SessionIdBuilder::build')],
  AI + '; the symbolic value of every identity component is compared with an anchored field lookup')

P('C02', 'Body length and checksum set on an outgoing message match its fields',
  'Setting the body length stores in header field 9 the decimal number of bytes of all serialised fields of header, body and trailer, '
  'those in repeating groups included, except fields 8, 9 and 10. Setting the checksum stores in trailer field 10 the sum modulo 256 '
  'of the bytes of all serialised fields except 10, written as exactly three digits padded with zeros. Messages the engine builds itself '
  'get both after all their other fields.',
  ['inputs', 'programs'], 'every message content: any fields in any section, any group nesting, any value bytes',
  'The tests compare a few precomputed sums; a field class left out, a wrong modulus or padding only shows for particular contents.',
  ['message.rs'],
  [('checksum', 'src/message.rs: Message::set_checksum, calc_checksum'), ('body length', 'src/message.rs: Message::set_body_len, calc_body_len'),
   ('flattening', 'src/message.rs: FieldMapIter::fieldmap_to_vec')],
  AI + '; accumulator summaries of the summation loops')

P('C03', 'No text received from the network can panic the engine',
  'Deriving the session identity from, parsing, routing and answering a received text completes without a panic for every byte '
  'sequence a peer can send: no failed unwrap, index or slice out of bounds, or panicking conversion is reachable in any thread or '
  'task that handles network traffic. Malformed input becomes an error value or is skipped.',
  ['inputs', 'histories'], 'every byte sequence from the peer, every loaded dictionary, every state of the session table',
  TEST + 'a panic needs one particular malformed text (too few fields, no delimiter, an odd group count), and kills a thread for good.',
  ['message.rs', 'network.rs', 'io/acceptor.rs', 'session/session_and_state.rs'],
  [('parser', 'src/message.rs: Message::from_str, parse_header, parse_body, parse_group, parse_trailer'),
   ('receiver thread', 'src/network.rs: start_receiver_task'), ('reader and writer tasks', 'src/io/acceptor.rs: start_socket_listener_task, start_app_listner_task')],
  'reachability of panic sites by ' + AI, 'Arithmetic overflow checks and stack exhaustion by deep recursion are outside the claim.')

P('C04', 'Every field of an accepted message is kept exactly once, in its section',
  'When a text is accepted, every tag=value field of it is in the resulting message exactly once, with its exact tag and value (a group count as the number it states): in the '
  'header if the dictionary lists it for the header, in the trailer if it lists it for the trailer, otherwise in the body or, for '
  'members of a repeating group, in that group\'s current instance. A plain field or group count whose tag already occurred in the '
  'same section or enclosing group instance, and a header, body or trailer field outside its section, make the text rejected.',
  ['inputs'], 'every text and every dictionary',
  TEST + 'a lost, overwritten or misplaced field depends on which tags occur in which order.',
  ['message.rs'],
  [('field queue', 'src/message.rs: Message::from_str'), ('section parsers', 'src/message.rs: parse_header, parse_body, parse_trailer, parse_group'),
   ('duplicate rejection', 'src/message.rs: FieldMap::add_parsed_field')],
  'linear-use (typestate) analysis of every dequeued field by ' + AI)

P('C05', 'Parsed repeating groups have exactly the declared structure',
  'For every accepted text, each repeating group holds exactly as many instances as its count field declares, and every instance '
  'begins with the group\'s delimiter field as the dictionary defines it. Within an instance plain fields follow the dictionary\'s order '
  'strictly, every occurrence of the delimiter starts the next instance, and nested groups attach to the current instance. Any other '
  'shape is rejected.',
  ['inputs'], 'every text, every count value, every dictionary and nesting of groups',
  TEST + 'count, delimiter and order violations combine without bound, and most only show in the second or nested instance.',
  ['message.rs'],
  [('group parser', 'src/message.rs: parse_group'), ('group creation', 'src/message.rs: FieldMap::set_group')],
  'inductive loop invariants over ' + AI)

P('C06', 'A rejected message carries the reason that matches what is wrong with it',
  'A field without \'=\' or with a tag that is not a number is rejected as invalid tag, one with an empty value as tag without value, a '
  'wrong or missing 8, 9, 35 start or a field outside its section as tag out of order, a repeated tag as appearing more than once, a '
  'group count that is not a number as incorrect data format, a count that differs from the instances as incorrect group count, a group '
  'not starting with its delimiter as required tag missing, and misordered group fields as repeating group out of order. '
  'No well formed text is rejected, and every rejection constructor yields the reason it is named after.',
  ['inputs'], 'every text and every dictionary',
  'The tests check that some bad texts fail, not which reason is given, and only for a few of the conditions.',
  ['message.rs', 'quickfix_errors.rs'],
  [('rejections', 'src/message.rs: Message::from_str, parse_*'), ('reasons', 'src/quickfix_errors.rs: SessionRejectError')],
  AI + '; every error exit is matched with the path condition that leads to it')

P('C07', 'Serialised messages have the FIX field order',
  'Every message is serialised as header, then body, then trailer, each field exactly once as tag=value and the delimiter character; '
  'the header of a new or parsed message starts with 8, 9 and 35 in this order, and its trailer ends with 10 (as far as they are set, '
  'and of a trailer made of the standard fields 93, 89 and 10). '
  'Directly after a group\'s count field come all fields of its instances, in instance order and with nested groups in the same way, '
  'each instance of a group that was parsed or made by set_group starts with its delimiter field, and the fields of an instance of a parsed group '
  'come in the order of the dictionary.',
  ['inputs', 'programs'], 'every message content, order of construction and hash seed',
  'Field storage is a hash map with random order, so a test sees one of many orders; nested and empty groups are not sampled.',
  ['message.rs'],
  [('flattening', 'src/message.rs: FieldMapIter::fieldmap_to_vec'), ('field orders', 'src/message.rs: Message::new, FieldMap::set_group'),
   ('formatting', 'src/message.rs: Display for StringField, FieldMap, Message')],
  AI + '; the emitted sequence is compared with the required one')

P('C08', 'Dictionary lookups answer exactly what the dictionary file declares',
  'For every dictionary file that loads, a field\'s name, number, type and enumerated values, the fields, required fields and groups of '
  'each message type, and the header and trailer membership answer exactly what the file declares; inside a group, members are kept '
  'in file order and the delimiter is the first declared member. '
  'A field name, field number, enumerated value, message name or message type declared twice, or a field listed twice in one message '
  'or group, makes loading fail.',
  ['inputs', 'configurations'], 'every dictionary file',
  'The tests load one file and query a few entries of it.',
  ['data_dictionary.rs'],
  [('tables', 'src/data_dictionary.rs: DataDictionary::set_field_name_number_type, set_field_for, set_group_info, add_fields_to'),
   ('queries', 'src/data_dictionary.rs: DataDictionary::is_msg_field, is_msg_group, get_msg_group, ...')],
  AI + '; table updates and queries are compared as symbolic map operations')

P('C09', 'Required flags follow the dictionary nesting rules',
  'A field of a message is required exactly when its own flag says Y (in any case); a field reached through a component or group is '
  'required exactly when both its own flag and the flag of the directly enclosing component or group reference say so. '
  'The flag of a component reference, and of a group when its own members are processed, does not depend on anything further out.',
  ['inputs', 'configurations'], 'every dictionary file and nesting of components and groups',
  'The tests check a few required fields of one file; wrong propagation shows only for particular flag combinations at depth.',
  ['data_dictionary.rs'],
  [('flag propagation', 'src/data_dictionary.rs: add_xml_message, add_xml_component, add_xml_group'), ('flag parsing', 'src/data_dictionary.rs: get_required_attr')],
  AI + '; the flag argument of every table update is compared with the required conjunction')

P('C10', 'A malformed dictionary is reported as an error, never a panic or a partial load',
  'For every text that is not a well formed dictionary, parsing it returns an error of the matching kind: text that is not XML, a '
  'missing section, a missing or empty attribute, a field number that does not parse, a field, enumerated value or message declared twice, an element '
  'other than field, group and component inside a message, the header, the trailer or a group or component they use, and in those '
  'places a reference to an undefined field or component, or a component that contains itself. It neither panics nor recurses without '
  'end nor returns a dictionary with the offending part silently left out, and a well formed dictionary is not refused.',
  ['inputs', 'configurations'], 'every text offered as a dictionary',
  'The tests load valid files and a few broken fragments.',
  ['data_dictionary.rs', 'quickfix_errors.rs'],
  [('loader', 'src/data_dictionary.rs: DataDictionary::from_str and everything it calls'), ('errors', 'src/quickfix_errors.rs: XmlError')],
  'error-propagation and panic-reachability analysis by ' + AI, 'Elements that are neither field nor value declarations inside the fields section, and messages of other tags in the messages section, are skipped by design.')

P('C11', 'Field type names and types correspond one to one',
  'Parsing a field type name never fails, and for every known FIX type name the type it yields prints as exactly that name, distinct '
  'names giving distinct types. Every other text gives the unknown type.',
  ['inputs'], 'every type name',
  'The tests never go through all names, and a swapped pair goes unnoticed.',
  ['data_dictionary.rs'],
  [('type names', 'src/data_dictionary.rs: FromStr and Display for FixType')],
  'exhaustive case enumeration of two symbolic tables by abstract interpretation')

P('C12', 'A session setting overrides the default, and defaults fill only what is absent',
  'Looking up a setting for a session with default fallback yields the session\'s own value whenever the session section has the '
  'setting, otherwise the default section\'s value, and otherwise reports it absent; the strict lookup never falls back, and the '
  'default lookup reads only the default section. The value returned is the parse of the exact configured text, and one that cannot be '
  'parsed is reported, never replaced by another value.',
  ['inputs', 'configurations'], 'every configuration, session and setting name',
  'The tests look up a few settings of one file.',
  ['session/session_settings.rs'],
  [('lookups', 'src/session/session_settings.rs: Properties::get_property, get_config, get_optional_config, get_or_default_config, get_default_config')],
  AI + '; symbolic result of every lookup compared with the precedence rule')

P('C13', 'No invalid configuration is accepted',
  'A configuration is accepted only if it has exactly one default section, placed before all session sections, with a connection type of '
  'exactly acceptor or initiator, and every session has a parsable accept port (acceptor) or connect host and port (initiator), a '
  'begin string among FIX.4.2, FIX.4.3 and FIX.4.4, and sender and target company ids; everything else is refused at load time. '
  'No two sections of an accepted configuration have the same session id, and every session section and every setting line of it ends '
  'up, with its trimmed unquoted key and value (the last one, where a key is repeated), under the session id of that section.',
  ['inputs', 'configurations'], 'every configuration text',
  'The tests load about ten configurations; the combinations of missing and invalid settings are many more.',
  ['session/session_settings.rs', 'network.rs'],
  [('section parser', 'src/session/session_settings.rs: Properties::from_str, parse_table'), ('validation', 'src/session/session_settings.rs: Properties::check')],
  'must-check dataflow by ' + AI)

P('C14', 'Session identities compare, hash and print consistently',
  'The printed form of a session identity is begin string, colon, sender company with its sub and location id if set, arrow, target company '
  'with its sub and location id if set (each separated by a slash), for every way of building one, and an empty optional component counts '
  'as absent. An identity equals itself, identities that compare equal hash equally, and two identities that differ in any of these components are not equal.',
  ['inputs'], 'every combination of present, absent and empty components',
  'The tests compare a handful of ids.',
  ['session/session_id.rs', 'network.rs'],
  [('id text', 'src/session/session_id.rs: SessionId::set_session_id'), ('Hash, PartialEq, Display', 'src/session/session_id.rs'),
   ('builder', 'src/session/session_id.rs: SessionIdBuilder::build')],
  AI + '; hash inputs are checked to be functions of the compared fields')

P('C15', 'The session table is never locked across application code, sending or waiting',
  'While any reference into the shared session table is held, no application callback, channel operation, blocking call, suspension point '
  'or further access to the table is executed, in any thread or task. So no schedule of threads can deadlock on the table.',
  ['schedules', 'histories'], 'every interleaving of receiver thread, tasks and application callbacks',
  'A deadlock needs two operations on the same shard in one interleaving; the tests are single threaded.',
  ['network.rs', 'session/session_and_state.rs'],
  [('table access', 'src/network.rs: SessionMap'), ('send', 'src/session/session_and_state.rs: Session::sync_send_to_target'), ('receiver', 'src/network.rs: start_receiver_task')],
  'lock-scope dataflow over MIR drop elaboration (guard liveness against call effects)')

P('C16', 'Only parsed and verified messages reach the application, with their own session',
  'The application callback runs only with a message that was parsed successfully from the received text and then verified successfully, '
  'together with the session identity derived in reverse direction from that same text, and parsed with the dictionary of exactly that '
  'session. Every message of a known session that is parsed and verified is given to it exactly once, texts are handled one after the other, '
  'and one that has no session, does not parse or does not verify does not stop the handling of later ones.',
  ['inputs', 'histories'], 'every sequence of received texts and every session table',
  'No test runs the receiver at all.',
  ['network.rs', 'session/session_and_state.rs', 'message.rs'],
  [('receiver thread', 'src/network.rs: start_receiver_task')],
  'must-precede (typestate) analysis of the receiver loop by ' + AI)

P('C17', 'The byte stream is cut into messages at checksum fields only',
  'For every byte stream and every way it is split into network reads, each message handed on is exactly the bytes since the previous '
  'one up to and including the delimiter that ends the next field starting with 10=; no byte is lost, duplicated or carried over. '
  'When the stream ends or fails before that, nothing is handed on and reading stops.',
  ['inputs', 'schedules', 'fault_sequences'], 'every byte stream, every fragmentation, every read result',
  'No test reads from a stream.',
  ['io/acceptor.rs'],
  [('framing', 'src/io/acceptor.rs: read_message'), ('reader task', 'src/io/acceptor.rs: start_socket_listener_task')],
  'loop invariant of the read buffer by ' + AI)

P('C18', 'Every configured session can send on its own port before traffic arrives',
  'Starting the acceptor gives every configured session the sending side of exactly the acceptor that listens on that session\'s '
  'configured accept port, before that acceptor starts to accept connections. '
  'Exactly one acceptor is started per distinct configured address, all feed one receiver that is started with the same session table.',
  ['configurations', 'schedules'], 'every configuration with any number of sessions and ports',
  'No test starts an acceptor.',
  ['network.rs', 'io/acceptor.rs'],
  [('wiring', 'src/network.rs: SocketAcceptor::start_accepting_connections, set_session_responder'), ('acceptor', 'src/io/acceptor.rs: IoAcceptor::create, start')],
  'ordering and dataflow of wiring effects by ' + AI)

P('C19', 'Messages sent to a connected session are written completely and in order',
  'Every message taken from a connection\'s send queue is written completely to its socket, unmodified and before the next one is taken. '
  'Falling behind does not stop the writer; only the end of the queue or a failed write does.',
  ['histories', 'fault_sequences'], 'every sequence of sends, queue overruns, partial writes and write failures',
  'No test writes to a socket.',
  ['io/acceptor.rs', 'session/session_and_state.rs'],
  [('writer task', 'src/io/acceptor.rs: start_app_listner_task'), ('send', 'src/session/session_and_state.rs: Session::sync_send_to_target')],
  'effect-sequence analysis of the writer loop by ' + AI)

P('C20', 'Session schedules without weekdays follow their configuration at every moment',
  'A schedule configured without start and end time is always in session. One with start and end time but no weekdays is in session '
  'exactly when the current time in its configured time zone (UTC if none) lies on the same day between start and end, both inclusive. '
  'A configuration with only one of the two times, or with weekdays but no times, is refused.',
  ['inputs', 'configurations'], 'every instant, time zone and pair of times',
  'The existing schedule tests depend on the clock and are excluded for that reason.',
  ['session/session_schedule.rs'],
  [('schedule', 'src/session/session_schedule.rs: SessionSchedule::create_schedule, is_session_time')],
  AI + '; symbolic result compared with the window formula')

P('C21', 'A peer cannot make the engine allocate without sending data',
  'Every allocation or repetition that handling a received text performs is bounded by the length of that text: no count, length or tag '
  'value in it is used as a size, capacity or number of iterations unless it was first checked against the amount of data received.',
  ['inputs'], 'every received text',
  'A test would have to contain the one text with a huge count.',
  ['message.rs', 'io/acceptor.rs'],
  [('group count', 'src/message.rs: parse_group, FieldMap::set_group'), ('buffers', 'src/io/acceptor.rs: start_socket_listener_task')],
  'taint analysis of allocation sizes and loop bounds by ' + AI)

P('C22', 'Asynchronous tasks never block their executor thread or spin on a failed peer',
  'No task spawned on the asynchronous runtime calls a blocking operation (thread sleep or join, blocking channel operation, blocking file, '
  'socket or process access, nested runtime), directly or through a function it calls, and each of its loops waits at a suspension point in every '
  'iteration, the one after a failure (an address that is in use) included. So one connection cannot starve the others.',
  ['schedules', 'programs'], 'every task, path and interleaving',
  'Blocking shows only under load with many connections.',
  ['io/acceptor.rs', 'network.rs'],
  [('tasks', 'src/io/acceptor.rs'), ('receiver on its own thread', 'src/network.rs: start_receiver_task')],
  'effect analysis of spawned futures by call graph and ' + AI)

P('C23', 'Each setting controls its own session parameter, with the documented default',
  'A session built from settings takes heartbeat interval, the three reset flags and the dictionary path each from the setting of that '
  'name (default 30, true, true, true, resources/FIX43.xml), and a session identity built from settings takes each component from the '
  'setting of that name in the session section or else the default section. No component or parameter is taken from another setting.',
  ['inputs', 'configurations'], 'every configuration',
  'The tests compare a few ids; session parameters are never checked.',
  ['session/session_and_state.rs', 'session/session_id.rs', 'session/mod.rs'],
  [('session parameters', 'src/session/session_and_state.rs: Session::with_settings'), ('identity', 'src/session/session_id.rs: SessionId::from_map')],
  AI + '; provenance of every struct field')

P('C24', 'Fields and groups set on a message are read back unchanged',
  'A field set in a section is returned by a later read of that tag in that section, parsed from exactly the text last set, and setting one '
  'tag, section or group never changes another; reading an absent tag, or a value that does not parse, is an error. '
  'Setting a group of n instances stores the count field n and exactly n empty instances that replace earlier ones, and the group found '
  'under that tag reports that size, tag and delimiter.',
  ['inputs', 'programs'], 'every sequence of sets and gets with any tags and values',
  TEST + 'interference between particular tags or sections is not sampled.',
  ['message.rs'],
  [('accessors', 'src/message.rs: FieldMap, Group, Message set_field, get_field, set_group, get_group')],
  AI + '; accessors compared as symbolic map operations')

P('C25', 'Parsing a received text terminates after work bounded by its length',
  'Every loop of the message parser removes at least one field of the text in each iteration that is followed by another one, and never '
  'puts more back than it removed; every recursive call is preceded by such a removal. So no text can keep the receiver busy forever.',
  ['inputs'], 'every text and every dictionary',
  'Termination for all texts cannot be observed by running some.',
  ['message.rs'],
  [('parser loops', 'src/message.rs: parse_header, parse_body, parse_group, parse_trailer')],
  'progress (ranking) analysis of the queue-consuming loops by ' + AI)

P('C26', 'Weekly session windows are evaluated correctly',
  'A schedule with start and end weekdays is in session exactly when the current local date and time in its time zone lies between the start '
  '(start time on the start weekday) and the end (end time on the end weekday, both inclusive) of its week: on the start weekday from the start time '
  'on, on the days between the two weekdays (wrapping around the end of the calendar week or year) at any time, on the end weekday up to the end '
  'time, on all other days never; with equal weekdays the window lies within that day. Every test for session time ends with an answer, whatever '
  'today\'s weekday is, daylight saving changes included. A schedule configured with only one of the two weekdays is refused.',
  ['inputs'], 'every instant, zone, pair of weekdays and pair of times',
  'The tests depend on the current time of day.',
  ['session/session_schedule.rs'],
  [('weekly window', 'src/session/session_schedule.rs: SessionSchedule::is_session_time'), ('weekdays', 'src/session/session_schedule.rs: SessionSchedule::create_schedule')], AI)

P('C27', 'A reply reaches exactly the connection its session logged on with',
  'A message sent to a session is delivered to the one connection on which that session\'s counterparty is connected, and to no other.',
  ['histories', 'schedules'], 'every set of connections and sessions sharing a port',
  'No test opens two connections.',
  ['io/acceptor.rs', 'network.rs'],
  [('broadcast channel per port', 'src/io/acceptor.rs: IoAcceptor::create')], AI)

P('C28', 'Inbound checksum, body length and sequence numbers are validated',
  'A received message whose checksum, body length or sequence number is wrong is not given to the application.',
  ['inputs', 'histories'], 'every received text and session history', 'No test covers it.',
  ['session/session_and_state.rs', 'message.rs'],
  [('verification', 'src/session/session_and_state.rs: Session::verify')], AI)

P('C29', 'Every connection to a configured port is served',
  'The acceptor of an address keeps trying until it listens there and from then on keeps listening: it accepts one connection after another, without '
  'waiting for earlier ones, and neither a failed bind nor a failed accept ends it. Each accepted connection gets exactly one reader of its '
  'incoming half and exactly one writer of its outgoing half with its own subscription to the acceptor\'s send queue.',
  ['histories', 'schedules', 'fault_sequences'], 'every sequence of connections, disconnections and failures of bind and accept',
  'No test opens a connection.',
  ['io/acceptor.rs'],
  [('accepting task', 'src/io/acceptor.rs: IoAcceptor::start')],
  'effect-sequence analysis of the accepting loop by ' + AI)

P('C30', 'Generated field types carry the number their dictionary declares',
  'Every field that the dictionary the library is built with declares has a field type of its name; the tag of that type, both the static one and the one in a '
  'value made of it, is the declared number, and the text of such a value is the printed form of what it was made of.',
  ['programs'], 'all declared fields (635) and all values',
  'No test uses a generated type.',
  ['build/code_generator.rs', 'build/templates.rs', 'resources/FIX43.xml'],
  [('generator', 'build/code_generator.rs: get_fix_spec, generate_fields'), ('template', 'build/templates.rs: FIELD_STRUCT')],
  'constants of the generated MIR compared with the parsed dictionary')

P('C31', 'Messages the library itself sends are complete and carry the time of sending',
  'A message that the engine itself makes and sends to a counterparty has begin string, message type, sequence number, sender, target and sending time in '
  'its header, none of them empty; its body length is set after all of them and its checksum after that, and nothing is changed afterwards. '
  'Setting the sending time of any message stores the current time in UTC as YYYYMMDD-HH:MM:SS.sss in header field 52 and changes nothing else.',
  ['inputs', 'histories'], 'every message and every moment',
  'No test builds such a message.',
  ['message.rs', 'network.rs'],
  [('reply', 'src/message.rs: test_logon'), ('sending', 'src/network.rs: start_receiver_task'), ('time', 'src/message.rs: Message::set_sending_time')], AI)

P('C32', 'No valid configuration is refused',
  'Loading a configuration from text refuses it only for one of these defects: a section header that is not closed; a line of a section that is neither empty nor has an '
  'equals sign; no default section, a second one, or a session section before it; two sections with the same session id; a connection type that is '
  'missing or not acceptor or initiator; a session whose begin string, sender or target company id is missing from both its section and the default one; '
  'a session whose begin string is not FIX.4.2, FIX.4.3 or FIX.4.4; a session of an acceptor without a parsable accept port; a session of an '
  'initiator without connect host or parsable connect port. In particular the default section itself need not satisfy what is required of sessions.',
  ['inputs'], 'all configuration texts',
  'The existing tests only load configurations that are to be refused.',
  ['session/session_settings.rs', 'session/session_id.rs'],
  [('loading', 'src/session/session_settings.rs: Properties::from_str'), ('identity', 'src/session/session_id.rs: SessionId::from_map')], AI)

NOT_APPLICABLE = {
    'C27': 'Which connection belongs to which session is runtime state the design does not keep: one broadcast channel per port delivers to every '
           'connection. There is no construct in the source that could make it hold, so there is nothing to decide statically.',
    'C28': 'Not implemented in this version (verification accepts everything); a check could only report the absence of the feature.',
}

P('C33', 'Every configured session exists in a new acceptor, under its own identity',
  'Creating an acceptor from settings that were loaded never panics because of them, keeps the settings and the application it was given, has the configured '
  'connection type, and gives a session table that holds, for every session section of the settings and for no other identity, exactly the '
  'session made of these settings for that identity.',
  ['configurations'], 'every loaded configuration, with any number of sessions',
  'No test creates an acceptor.',
  ['network.rs', 'session/session_settings.rs'],
  [('creation', 'src/network.rs: SocketAcceptor::new, create_sessions, SessionMap'), ('connection type', 'src/network.rs: FromStr for ConnectionType'),
   ('identities', 'src/session/session_settings.rs: Properties::session_ids')],
  'loop induction over the symbolic session table by ' + AI)
