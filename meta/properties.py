#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 meta/properties.py > properties.jsonl)."""
import json, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


PDU, MODEM, SER, UTIL = 'gsmmodem/pdu.py', 'gsmmodem/modem.py', 'gsmmodem/serial_comms.py', 'gsmmodem/util.py'
EXC = 'gsmmodem/exceptions.py'

prop('C01', 'Encoded SMS-SUBMIT PDUs carry exactly the requested text, number and options',
     """For every Unicode text, every numeric or alphanumeric (at most 11 characters) destination and every combination of
     reference, SMSC number, status-report request, reject-duplicates, flash and validity options, decoding the encoder's PDUs by
     GSM 03.40/03.38 and joining the parts in order gives back exactly that text, destination and those options.
     The 7-bit alphabet is used exactly when every character belongs to its default or extension table, and UCS2 (with UTF-16
     surrogate pairs outside the BMP) otherwise.""",
     ['inputs', 'configurations'],
     """All texts (any characters, any length up to 255 parts, including empty), all destinations, all option combinations.""",
     """The tests encode about ten fixed texts and compare with recorded PDUs; the encoder's behaviour depends on every (bit
     alignment, character, part boundary) combination, which only enumeration covers.""",
     [PDU], [('SMS-SUBMIT encoder', PDU + ':encodeSmsSubmitPdu'), ('GSM-7 / UCS2 encoders', PDU + ':encodeGsm7, encodeUcs2, packSeptets'),
             ('address field encoder', PDU + ':_encodeAddressField')],
     ['bytes of the PDUs returned by gsmmodem.pdu.encodeSmsSubmitPdu, read by an independent decoder'])

prop('C02', 'Every SMS part fits in one message and is labelled correctly',
     """Whatever the text, every produced PDU carries at most 140 octets of user data, a user-data length field that matches its
     contents, and a reported TPDU length equal to the number of octets after the SMSC field.
     A text that fits one message is a single PDU without user data header; a longer one is split into non-empty parts, as few as
     possible, that carry a concatenation header with one common reference, the true total and the numbers 1..total in order.
     No part boundary separates the two halves of an extension-table character or of a surrogate pair.""",
     ['inputs', 'configurations'],
     """All texts: every length up to several parts and every position of wide characters relative to the part boundaries.""",
     """Tests use two long texts; the part count and boundaries depend on every length and on where two-septet/two-unit characters
     fall.""",
     [PDU], [('concatenation', PDU + ':encodeSmsSubmitPdu, Concatenation'), ('size table', PDU + ':MAX_MESSAGE_LENGTH')],
     ['bytes and tpduLength of the PDUs returned by gsmmodem.pdu.encodeSmsSubmitPdu'])

prop('C03', 'Well-formed received PDUs decode to exactly the fields they carry',
     """Every well-formed SMS-DELIVER, SMS-SUBMIT and SMS-STATUS-REPORT, given as hex string or as byte array, is decoded to exactly the SMSC,
     sender or recipient, text, time stamps, reference, delivery status, protocol identifier, validity, message type and TPDU length it encodes.
     This holds for 7-bit, 8-bit and UCS2 data, with and without user data headers of any length (whose elements, such as concatenation
     and port addressing, are all reported in order), for every text length including empty, and for every final character.
     A header element taken from a PDU, or built from its fields, encodes to octets that say the same.""",
     ['inputs'],
     """All well-formed PDUs of the three types: address kinds and lengths, alphabets, text lengths and contents, header contents and lengths.""",
     """Tests decode a handful of recorded PDUs; alignment-dependent errors (e.g. in fill bits or the last septet) only show at particular
     header/text length combinations.""",
     [PDU], [('PDU decoder', PDU + ':decodeSmsPdu, _decodeUserData'), ('information elements', PDU + ':InformationElement and subclasses'),
             ('septet/UCS2 decoding', PDU + ':unpackSeptets, decodeGsm7, decodeUcs2')],
     ['dict returned by gsmmodem.pdu.decodeSmsPdu for PDUs produced by an independent encoder'])

prop('C04', 'Undecodable PDU data only ever raises the documented encoding error',
     """For every byte sequence or string, decoding a PDU either returns a result or raises the library's documented encoding error, and it
     always terminates; no other exception escapes.
     In particular every truncation and every single-octet corruption of a valid PDU, non-hex text and the empty string obey this, and a PDU
     truncated before the end of its mandatory fields raises that error.""",
     ['inputs', 'fault_sequences'],
     """All strings and byte sequences; all truncation points and all single-octet changes of valid PDUs.""",
     """The tests try two bad inputs. Callers catch only the documented error, so any other exception type aborts a whole message listing or a handler thread.""",
     [PDU], [('error conversion', PDU + ':decodeSmsPdu')], ['exception type raised by gsmmodem.pdu.decodeSmsPdu'])

prop('C05', 'The GSM 7-bit alphabet and septet packing are exact and invertible',
     """Every character of the GSM 03.38 default and extension tables encodes to its standard code and decodes back to itself, and every other
     character is rejected with a ValueError, or dropped when dropping was requested.
     Packing any sequence of n septets yields the GSM bit layout in exactly ceil(7n/8) octets with zero padding, and unpacking that data returns exactly
     the original septets (only a final zero septet that completes a group of eight, which looks like padding, may be left out).
     UCS2 encoding and decoding are inverse for every Unicode text.""",
     ['inputs'],
     """All Unicode characters; all septet sequences (every bit alignment, every pair of adjacent septets, every length).""",
     """Tests use a dozen fixed strings; a wrong table entry or a mistake at one of the eight alignments is invisible unless that entry and alignment are tried.""",
     [PDU], [('alphabet tables', PDU + ':GSM7_BASIC, GSM7_EXTENDED'), ('codec', PDU + ':encodeGsm7, decodeGsm7, packSeptets, unpackSeptets, encodeUcs2, decodeUcs2')],
     ['return values of the public functions of gsmmodem.pdu'])

prop('C06', 'Time stamps and validity periods are represented faithfully',
     """Every SMS time stamp, in PDU or in text-mode notation, decodes to the date, time and quarter-hour UTC offset (positive or negative, including
     fractions of an hour) it denotes, and an absolute validity time encodes to a field denoting the same local time and offset.
     A relative validity period from 5 minutes to 441 days is encoded as the largest period representable in the GSM 03.40 table that does not exceed it.""",
     ['inputs'],
     """All time stamps of the years 2000-2068 at all quarter-hour offsets -79..+79; all 256 relative validity codes and all durations in range.""",
     """Tests use about ten time stamps, all with whole-hour offsets in text mode, and a dozen durations.""",
     [PDU, UTIL], [('PDU time stamps', PDU + ':_encodeTimestamp, _decodeTimestamp, SmsPduTzInfo'),
                   ('validity', PDU + ':_encodeRelativeValidityPeriod, _decodeRelativeValidityPeriod'),
                   ('text mode time', UTIL + ':parseTextModeTimeStr, SimpleOffsetTzInfo')],
     ['decodeSmsPdu()["time"/"discharge"/"validity"], encodeSmsSubmitPdu(validity=...), gsmmodem.util.parseTextModeTimeStr'])

prop('C07', 'Phone numbers and sender names survive the PDU address fields',
     """Every telephone number of 1 to 20 digits, national or international (leading +), and every alphanumeric name of 1 to 11 characters of the 7-bit alphabet (at most 11
     septets; not looking like a number) round-trips through the address fields of a PDU: what the decoder reports is exactly what the standard encoding carries and what the encoder was given.
     The same holds for SMSC numbers, and no following field is disturbed.
     Semi-octet encoding and decoding are inverse for every digit string.""",
     ['inputs'],
     """All numbers and names by length, parity, digit values, type of number; destination, originator and SMSC positions.""",
     """Tests use a few numbers; odd/even length, every digit pair and every name length/alignment are separate cases.""",
     [PDU], [('address fields', PDU + ':_encodeAddressField, _decodeAddressField'), ('semi-octets', PDU + ':encodeSemiOctets, decodeSemiOctets')],
     ['encodeSmsSubmitPdu / decodeSmsPdu results and encodeSemiOctets / decodeSemiOctets'])

prop('C08', 'Each line the modem sends is delivered exactly once, however it is chunked',
     """However the modem's output is split into reads and wherever reads time out, the complete non-empty lines received are recovered exactly: those arriving while a command
     waits for its response form that response up to and including its final result line (or expected prompt), and every other line is handed to the notification handler exactly once and in order.
     Only a whole line that is a final result ends a response; text that merely begins with or contains such words does not.
     No line is lost, duplicated, merged or left undelivered once the modem has fallen silent.""",
     ['inputs', 'schedules', 'histories'],
     """All segmentations of the byte stream, all interleavings of the reading thread with commands and read timeouts, all line contents.""",
     """The test serial port hands over everything at once from a fixed script; the framing depends on timing between bytes, waiting counts and the reader/writer race.""",
     [SER], [('read loop', SER + ':_readLoop'), ('line routing', SER + ':_handleLineRead'), ('result detection', SER + ':RESPONSE_TERM')],
     ['return value of write() and arguments of the notification callback of a SerialComms object'])

prop('C09', 'Concurrent commands each get exactly their own response',
     """When several threads issue commands on one modem at the same time, the commands reach the modem whole and one at a time, each only after the previous one has received its final
     result or timed out, and each caller receives exactly the modem's response to its own command (or the exception for it).
     This holds under every thread schedule, for prompt-terminated commands too, and no caller waits forever.""",
     ['schedules'],
     """All interleavings (to a preemption bound) of two or three commanding threads, the reading thread and the modem.""",
     """The tests issue commands from one thread; pairing depends on the lock, event and buffer hand-over order.""",
     [SER, MODEM], [('transmit lock and response event', SER + ':write'), ('routing', SER + ':_handleLineRead')],
     ['bytes arriving at the serial port; return values of concurrent write() calls'])

prop('C10', 'A command timeout is reported once and leaves the connection usable',
     """If no final result arrives within a command's timeout, that command raises the library's timeout exception when the timeout elapses, carrying exactly the lines received so far (none: no data), and it never
     returns normally or blocks longer.
     After any timeout, at any point of a response, under every schedule, the reading thread is alive, output received while no command is pending goes to the notification handler, and
     a later command that the modem answers gets that answer.""",
     ['schedules', 'fault_sequences', 'histories'],
     """All points at which a response may stall (every byte), all interleavings of the timeout with the reading thread, sequences of commands after it.""",
     """One test times out on a silent modem; races between expiry and arrival of the last bytes are never exercised.""",
     [SER], [('event wait', SER + ':write'), ('reader state', SER + ':_readLoop, _handleLineRead')],
     ['exceptions and results of write(); notification callback; liveness of later commands'])

prop('C11', 'Modem error replies become the right exception and busy replies are retried',
     """Every final result of a command is reported faithfully: success returns all response lines, and each error form raises the exception class, error type, numeric code and command documented for it (PIN required,
     incorrect PIN, PUK required and SMSC-unknown have their own classes), unless raw results were requested, which returns the lines as they are.
     The busy codes 515 and 14 never surface while the modem recovers: the identical command is re-sent after a growing pause until it gets another result, and that result is what the caller sees.
     The waits are over when the modem has recovered, whatever the result: later commands that are answered at once return (almost) at once.""",
     ['inputs', 'fault_sequences'],
     """All error codes, all result forms, all sequences of busy replies followed by any result, both raw and parsed mode.""",
     """Tests cover a few codes and one retry; the mapping is over all codes and the retry over all sequences.""",
     [MODEM, EXC, SER], [('error parsing and retry', MODEM + ':GsmModem.write'), ('exception classes', EXC)],
     ['result or exception of GsmModem.write(), bytes written to the port, elapsed time'])

prop('C12', 'Closing always completes and a port failure is reported exactly once',
     """Closing the connection at any moment returns within bounded time, stops the reading thread and closes the port, whatever other threads, pending commands or incoming data there are.
     If the port fails (a read raises the serial exception) at any point, the connection is marked not alive, the port is closed and the fatal-error handler is called exactly once with that exception, and no command
     issued by any thread blocks for longer than its timeout.
     A connection that has been closed or has failed can be connected again and works normally.""",
     ['schedules', 'fault_sequences', 'crash_points'],
     """All moments of closing or of failure relative to reads, commands and notifications; all schedules to a preemption bound.""",
     """One test raises an error on an idle port; failures in mid-line, in mid-response or during close are not tried.""",
     [SER], [('close / join', SER + ':close'), ('failure path', SER + ':_readLoop')],
     ['alive flag, port state, fatal callback invocations, results of pending commands'])

prop('C13', 'Connecting configures any modem correctly and unlocks the SIM at most once',
     """For every combination of supported optional features, initial radio state and SIM state, connecting either succeeds with the modem at full functionality, echo off, verbose errors on, the selected SMS
     mode set, delivery reports, new-message and caller-ID notifications, voice calls and readable USSD replies enabled where the modem supports them, the network name in words, and the SMSC number as it was before (or as the user chose), or raises the documented PIN exception.
     A PIN is sent at most once, only when the SIM asks for one and the caller gave one.
     Missing optional commands never make connecting fail. Connecting again with the same object, to the same modem or to another one that has taken its place, gives what a new object would give, and no call of the earlier connection counts as active any more.""",
     ['configurations', 'fault_sequences'],
     """All capability profiles: each optional command supported or failing, PIN states, SMSC set/unset/cleared by configuration, SMS storage layouts, text and PDU mode.""",
     """Tests run eight recorded modem scripts; combinations of features and failures are exponential in number and a wrong extra PIN attempt locks a SIM.""",
     [MODEM], [('initialisation', MODEM + ':GsmModem.connect'), ('SIM unlock', MODEM + ':GsmModem._unlockSim')],
     ['commands received and final configuration of a simulated modem; exception raised by connect()'])

prop('C14', 'sendSms submits exactly the requested message, atomically, or raises',
     """When sendSms returns, the modem has accepted exactly the requested message (all parts, in order, to the destination, in text or PDU mode) and the returned object carries the modem's reference; if any step fails,
     the matching exception is raised and no further part is submitted. A modem that needs a few seconds to ask for the text, or up to fifteen to accept it, is waited for.
     Under every schedule of concurrent sends, commands and incoming events, nothing else reaches the modem between a send command and its message body, so messages are never mixed, corrupted or sent to the wrong number.""",
     ['schedules', 'fault_sequences', 'inputs'],
     """All interleavings of two senders, other commands and notifications; every step of the dialogue failing or timing out; text and PDU mode; one and several parts.""",
     """Tests send from one thread with a script that checks each write in order; interleaving of the two-step dialogue is not exercised.""",
     [MODEM, SER], [('two-step submission', MODEM + ':GsmModem.sendSms'), ('transmit lock', SER + ':write')],
     ['messages accepted by a simulated modem; result of sendSms()'])

prop('C15', 'Every received SMS is delivered exactly once and only it is deleted',
     """For each new-message indication, in any burst, order or interleaving with commands and with other indications, from any storage, the message at that storage and index is read, removed from that storage and passed to the user's handler exactly once with its
     exact sender, time and text.
     No other stored message is ever removed, and a message is never removed without having been read.""",
     ['schedules', 'histories', 'configurations'],
     """All interleavings of several indications (same or different storages, single or back-to-back lines), user commands and handler threads; text and PDU mode.""",
     """Tests deliver one message at a time; two indications at once share the current-storage setting and the notification buffer.""",
     [MODEM, SER], [('handler', MODEM + ':GsmModem._handleSmsReceived'), ('storage switching', MODEM + ':GsmModem._setSmsMemory'),
                    ('notification grouping', SER + ':_handleLineRead')],
     ['handler invocations and final storage contents of a simulated modem'])

prop('C16', 'Delivery reports reach the message they belong to, and its waiting sender',
     """Every delivery report announced by the modem is read and removed from its storage, and attached to the sent message with the same reference, whose status then shows delivered or failed accordingly; other messages are unaffected.
     A send that waits for its report returns as soon as, and only when, the report for that message has arrived, and raises the timeout exception otherwise; a report nobody waits for goes to the user's status-report handler exactly once.""",
     ['schedules', 'histories'],
     """All orders and interleavings of sends, reports (matching, foreign, early, late, missing, several at once) and timeouts.""",
     """Tests use one send and one report in a fixed order; the report may arrive before the send call has finished or belong to another message.""",
     [MODEM], [('report handler', MODEM + ':GsmModem._handleSmsStatusReport'), ('waiting', MODEM + ':GsmModem.sendSms')],
     ['SentSms.status / report, result of sendSms(waitForDeliveryReport=True), status-report callback'])

prop('C17', 'Stored-message operations return and remove exactly the right messages',
     """Reading, listing, deleting and processing stored messages, in PDU or text mode and in any storage, return exactly the messages (sender, time, text, status, kind) that the storage holds for the request, and remove exactly those requested, after any history of operations.
     Listing with a status filter and deletion removes just the messages returned, and an undecodable stored message disturbs neither the others nor their indexes.
     Processing stored messages hands every received message to the user's handler exactly once.""",
     ['histories', 'configurations', 'inputs'],
     """All sequences of operations (to a depth) over storage contents with gaps, mixed statuses, both SMS modes and several storages.""",
     """Tests list one fixed storage; index bookkeeping, storage switching and filters interact over histories.""",
     [MODEM], [('listing', MODEM + ':GsmModem.listStoredSms, processStoredSms'), ('single messages', MODEM + ':GsmModem.readStoredSms, deleteStoredSms, deleteMultipleStoredSms')],
     ['return values and simulated storage contents, compared with a list model'])

prop('C18', 'Every modem event is acted on exactly once, even when events coalesce',
     """Whatever unsolicited lines arrive together or apart, in any order, split over any reads and mixed with unknown lines, each incoming-call, new-message, delivery-report, USSD and call-progress event has exactly its own effect, exactly once.
     Unknown or malformed lines have no effect and never prevent later events from being handled, and text inside a message that looks like an event is not one.""",
     ['histories', 'inputs', 'schedules'],
     """All sequences (to a length) of event and noise lines, all groupings into bursts.""",
     """Tests send one event per burst; a burst with two events takes a different path.""",
     [MODEM, SER], [('dispatch', MODEM + ':GsmModem._handleModemNotification'), ('grouping', SER + ':_handleLineRead')],
     ['user callbacks, call objects and simulated storage'])

prop('C19', 'Call objects always reflect the real state of the calls',
     """For every sequence of call events and user actions, each concurrent call has its own object and distinct identifier; it is active from its start to its end, answered exactly between being answered and its end, counts its rings, tells number, type of number and call type as notified, and is listed among the active calls exactly while active.
     Repeated rings of one call map to the same object, status callbacks of an outgoing call fire once per remote change and see the new state, and hanging up or ending one call never affects another.
     Actions on a call that has ended change nothing and send no command for it.""",
     ['histories', 'configurations'],
     """All sequences (to a depth) of dial, ring, answer, remote answer, remote end, local hangup over up to three calls, per modem family.""",
     """Tests follow single-call scenarios; identifiers and lookups collide only with several calls.""",
     [MODEM], [('call tracking', MODEM + ':GsmModem._handleIncomingCall, _handleCallInitiated, _handleCallAnswered, _handleCallEnded'),
               ('call objects', MODEM + ':Call, IncomingCall')],
     ['public attributes of Call objects and activeCalls; commands sent'])

prop('C20', 'dial() returns the call it started, or raises, under every timing',
     """For each modem family, dial returns an active call carrying the dialled number and the modem's call identifier once the modem reports the call as started, and raises the timeout or command exception if it is not, within the given timeout.
     This holds wherever the modem's reports fall relative to the calling thread, including an answer or an end reported immediately; those are reflected in the returned call and its callback, and a failed attempt leaves no call and no trace that could affect the next one. The returned call carries the call type the modem reported, and once no call is left the modem is not asked about calls any more.""",
     ['schedules', 'fault_sequences', 'configurations'],
     """All interleavings of the dialling thread with the modem's progress reports, for event-driven, answer-only and polled modems; all failure points.""",
     """Tests insert sleeps so that events arrive at a convenient time.""",
     [MODEM], [('dial', MODEM + ':GsmModem.dial'), ('progress events', MODEM + ':_handleCallInitiated, _handleCallAnswered, _handleCallEnded, _pollCallStatus')],
     ['result of dial(), activeCalls, status callback'])

prop('C21', 'Modem objects are independent, and DTMF tones are sent in full and in order',
     """Using several modem objects in one process, of the same or different kinds, in any order, each behaves exactly as it would alone.
     Sending DTMF tones on an answered call transmits every tone once and in order using the command form of that call's own modem and call identifier; on a call not answered or ended it sends nothing and raises the invalid-state exception, and a call lost while sending raises the interruption exception.""",
     ['configurations', 'histories', 'inputs'],
     """All pairs of modem kinds connected in any order; all tone strings to a length; all call states and error codes.""",
     """Tests reset shared settings between scenarios and use one modem at a time.""",
     [MODEM], [('DTMF', MODEM + ':Call.sendDtmfTone, Call.DTMF_COMMAND_BASE'), ('per-modem settings', MODEM + ':GsmModem.connect')],
     ['commands received by each simulated modem; exceptions'])

prop('C22', 'USSD requests return their own reply and session state',
     """A USSD request returns the network's reply text and whether the session remains open, whether the reply comes before, with or after the command acknowledgement, in one or several lines, with or without an extra session-release report, and under every thread schedule.
     If no reply comes in time it raises the timeout exception, if the command fails it raises the command's error, and a request afterwards works normally.
     Replying in an open session continues it, replying in a closed one raises the invalid-state exception without sending anything, and cancelling sends a release only if the session is open. A refused reply or cancellation raises the command's error and leaves the session open until the network or a later cancellation ends it.""",
     ['schedules', 'inputs', 'histories'],
     """All orders and groupings of acknowledgement, reply, release and late replies; all session codes and multi-line texts; schedules to a preemption bound.""",
     """Tests use fixed scripts in which the reply arrives at one of two convenient moments.""",
     [MODEM], [('request', MODEM + ':GsmModem.sendUssd'), ('parsing', MODEM + ':GsmModem._parseCusdResponse'), ('session', MODEM + ':Ussd')],
     ['Ussd objects returned, commands sent, exceptions'])

prop('C23', 'Status queries report what the modem said; waiting for coverage ends correctly',
     """Signal strength, network name, identification, supported-command, SMSC and SMS-mode queries return exactly what the modem reported, with the documented value for unknown, and setting the SMS mode or SMSC changes the modem and the reported value together: if the modem refuses, neither changes.
     Waiting for network coverage returns the signal strength only once the modem is registered (home or roaming) and the signal is above zero, raises the invalid-state exception when registration is denied or off, raises the timeout exception no later than about a second after the given timeout, and otherwise keeps waiting; it leaves nothing behind that keeps the program running.""",
     ['inputs', 'histories', 'fault_sequences'],
     """All reply values; all sequences (to a length) of registration and signal reports, with and without timeout; sets refused or accepted in any order.""",
     """Tests try a few values and two sequences.""",
     [MODEM, UTIL], [('properties', MODEM + ':GsmModem.signalStrength, networkName, supportedCommands, smsc, smsTextMode'), ('waiting', MODEM + ':GsmModem.waitForNetworkCoverage')],
     ['property values, exceptions and elapsed (virtual) time'])

TRIE, TERM, ATC = 'tools/gsmtermlib/trie.py', 'tools/gsmtermlib/terminal.py', 'tools/gsmtermlib/atcommands.py'
prop('C24', 'The prefix tree behaves like a dictionary with exact prefix queries',
     """After every sequence of insertions, updates and deletions, membership, look-up, length, keys and iteration of the prefix tree agree with a dictionary given the same operations, and missing keys raise a KeyError.
     Prefix filtering yields exactly the keys that start with the prefix, and the longest-common-prefix query returns the longest string that starts with the given prefix and is a prefix of every stored key that does (the empty string if there is none).""",
     ['histories', 'inputs'],
     """All operation sequences to a depth over keys that are prefixes and branches of one another.""",
     """Tests insert fixed key lists in one order; results depend on insertion order and on deletions.""",
     [TRIE], [('prefix tree', TRIE + ':Trie')], ['public operations of Trie'])

prop('C25', 'The terminal edits and transmits the line exactly as typed',
     """For every sequence of key presses, the terminal's input line and cursor are those of a plain line editor (printable keys insert at the cursor; backspace, delete, home, end, arrows and history recall behave as usual and never leave the line), the screen shows them, and the modem receives
     exactly the text of the line (without surrounding blanks) when it is submitted, unless it is a request to the terminal itself (help, ls, load).
     In an SMS text prompt, which is entered only if the modem asks for the text, the text is sent with the end-of-message character on Ctrl-Z and abandoned on Escape.
     Lines from the modem are shown and do not disturb the line being edited; scripts are sent line by line; the raw terminal passes every key on; the exit keys close the port.""",
     ['histories'],
     """All key sequences to a depth over every special key and representative printable ones, in normal and SMS-prompt state.""",
     """The repository has tests for a few key presses only; editing state depends on the whole history.""",
     [TERM], [('key handling', TERM + ':GsmTerm._handleInput / RawTerm')], ['bytes written to the modem and the edited line'])

prop('C26', 'AT command completion only ever completes, never corrupts, the input',
     """For every partially typed line, in any letter case, pressing TAB leaves what was typed in place, extending it to the longest unambiguous continuation of the known commands that begin with it, or listing/explaining them, and never fails or stops the input handling.
     With a unique match the line becomes that command; with no match, or inside an SMS text, it is unchanged.
     Asking for help or a listing shows it, sends nothing and never stops the input handling.""",
     ['inputs'],
     """All prefixes of all known commands in upper and lower case, with arguments and query suffixes, and texts that match nothing.""",
     """No test covers completion over the command table.""",
     [TERM, TRIE, ATC], [('completion', TERM + ':GsmTerm._doCommandCompletion'), ('command table', ATC)], ['edited line after TAB'])

prop('C27', 'The command-line tools do what was asked and say truthfully how it ended',
     """sendsms submits the message typed exactly once to the destination given, or not at all: only with network coverage, and with the PIN entered only if one was given and the SIM asks for it.
     It ends with exit status 0 and says the message was sent only if the modem accepted it and, with -d, a delivery report for it came, whose outcome (delivered OK or delivery failed) it states; otherwise it ends with a non-zero status, and in no case does it hang or die of an internal error.
     identify-modem prints exactly what the modem reports for each item (N/A for an unsupported revision) and changes nothing; gsmterm connects the chosen kind of terminal to the given port and ends on the exit key; wrong usage never touches the modem.""",
     ['inputs', 'configurations', 'fault_sequences'],
     """All combinations of options, SIM state, network coverage, failing step and delivery report; all item values and unsupported items; key sequences to a depth.""",
     """No test runs the scripts.""",
     ['tools/sendsms.py', 'tools/identify-modem.py', 'tools/gsmterm.py', MODEM], [('sending', 'tools/sendsms.py:main'), ('identification', 'tools/identify-modem.py:main'), ('terminal', 'tools/gsmterm.py:main')],
     ['exit status and output of the scripts, messages accepted by a simulated modem'])

if __name__ == '__main__':
    for p in P:
        print(json.dumps(p, ensure_ascii=False))
