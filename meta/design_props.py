# id: (spec, enumerated, oracle, bounds, why)
D = {
'C01': ("the SUBMIT PDU(s) of encodeSmsSubmitPdu decode, by the reference decoder, to exactly the requested text, number, SMSC, reference, validity, report request and flash class",
        "every Unicode BMP character and the edges of each plane; every transition between septet positions; all lengths around each limit x positions of a wide character; all combinations of the optional arguments; references 0-255+; destinations of all lengths and forms",
        "reference decoder", "texts up to about 2 parts for the full product, up to 20+ parts singly", "pure functions: exhaustive over each dimension and over all pairs of dimensions known to interact"),
'C02': ("each part fits into 140 octets, no character or escape pair is split, parts carry the same reference, the right total and consecutive numbers; the announced TPDU length is right; divideText agrees",
        "all text lengths to several parts x where 1-, 2-septet and surrogate characters stand relative to the part boundaries; many-part texts; addresses x references x options", "reference decoder and length arithmetic of TS 23.040", "see parts in the evidence", ""),
'C03': ("every well-formed DELIVER, STATUS-REPORT and SUBMIT decodes to the fields it was made from (number, text, times, UDH elements, SMSC, reference, status, protocol, length)",
        "headers (concatenation 8/16 bit, ports, unknown elements, several) x alphabets x text lengths; characters first/last/pairs at each alignment; all 256 data codings; all address forms; each other field through all its values; time stamps; header elements taken from a PDU or built from fields encode back to the same octets", "reference encoder", "user data to 160 septets", ""),
'C04': ("decodeSmsPdu on anything but a well-formed PDU returns or raises EncodingError, nothing else, and comes back",
        "all truncations, all single-octet and many two-octet corruptions of a set of PDUs of every kind; insertions/deletions; non-hex characters at each position; all short octet strings up to 2 octets (3 thorough); all length/type field values", "only the class of the exception", "PDU set x positions x 256 values", ""),
'C05': ("encodeGsm7/decodeGsm7/packSeptets/unpackSeptets/encodeUcs2/decodeUcs2 are exact and inverse to one another; characters outside the alphabet raise ValueError or are discarded on request",
        "every character; every pair; every septet at every alignment; all short sequences; every single bit of the packed form; one call after another (no state between calls)", "table of TS 23.038 in the reference", "sequences up to 3 complete", ""),
'C06': ("time stamps and relative/absolute validity periods keep their value: every day 2000-2068, every second of a day, every quarter-hour offset; text-mode time strings too",
        "all of them", "arithmetic on datetime; code table of TS 23.040 9.2.3.12", "complete within the format", ""),
'C07': ("numbers (international, national, with * # a b c, of odd and even length), alphanumeric names and SMSC numbers survive encoding and decoding",
        "all numbers to 4 digits; each digit at each position of each length; all names over representative characters to 11 septets; every type-of-address octet x length x field", "reference semi-octet / septet codec", "20 digits, 11 septets", ""),
'C08': ("each line is delivered once, whole and in order - as response line of the pending command or as notification - however reads cut the stream",
        "every segmentation of several streams into reads; words like and unlike final results; all error codes; line contents; schedules of read thread, caller and notification thread", "split at CR LF, classification by TS 27.007 final results", "streams to ~16 characters for all 2^n segmentations; 2-3 deviations (4 thorough)", ""),
'C09': ("concurrent commands each get exactly their own response, prompts included, and are written whole, one after the other",
        "2-3 threads x 1-2 commands x reply shapes (pieces, errors, prompts, none, partial), at the level of SerialComms and of GsmModem.write (delays, busy retries, not waiting)", "scripted device which knows the reply of each command", "3 deviations (SerialComms), 2 (GsmModem); 4/3 thorough", ""),
'C10': ("an unanswered command raises TimeoutException once, within its time; late or partial data never reach a later command; everything works afterwards",
        "the modem stalls after every character of every reply; histories of answered/stalled commands; every public request cut off after every character of its dialogue; timeouts from 0.25 s to 150 s and the default; reply exactly at expiry in all orders", "scripted device; remaining characters arrive after the timeout and before the next command", "histories to 3-4 commands; 2-4 deviations", ""),
'C11': ("each error reply raises the documented exception class with type and code; busy replies (CMS 515, CME 14) are retried with pauses and finally the real outcome is returned",
        "all codes x all forms x waiting/parse options; all busy sequences to a length; histories of answered, refused and busy commands, none of which may hold up a later one; two callers", "table of the documentation", "", ""),
'C12': ("close() always comes back, from any thread and callback; a failing port is reported to the fatal-error callback once, pending commands end with an exception; reconnecting works",
        "failure or close after every character of several dialogues; the device vanishing for good at each step; every public operation (sending, waiting for a report, dialling, answering, sessions, arrivals) cut short by failure, close or both after every character of the modem's output, then connected to another modem and used; the same operations and the port's end under all schedules; histories of connect/fail/close/reconnect; all interleavings of close, failure, command, callbacks", "counting callbacks; alive; virtual time", "4-5 deviations", ""),
'C13': ("connect() brings any modem of the four families into the state the library needs, tolerates every optional command being refused, enters the PIN at most once and only when asked, raises the matching PIN/PUK exception",
        "subsets of missing commands (single, pairs; triples thorough); families x command lists x error forms; SIM states x PINs (1-8 digits, leading zeros) x radio states; storage layouts; call-notification settings found (+WIND); repeated attempts; one object meeting two (three thorough) modems one after the other, closed or pulled out in between, calls in progress or not", "final state and command log of the simulated modem; after connecting again also: a message, a dialled call with tones and an incoming call give what they give to a new object", "", ""),
'C14': ("when sendSms returns the modem has accepted exactly that message (all parts in order); a failing step raises and nothing further is submitted; nothing is ever sent between AT+CMGS and the body",
        "sequences of messages x modes; every step failing in every way; a modem that takes its time (2.5 s or up to 15 s) or is busy at any steps; two/three senders, commands, incoming events under all schedules", "messages accepted by the simulated modem, decoded by the reference", "2 deviations, 3 thorough", ""),
'C15': ("every +CMTI leads to exactly one delivery of exactly that message, and only it is removed from its storage",
        "texts x senders x families x storages x indexes (0..65535); histories of receptions and user operations; failing steps x positions; bursts and threads under all schedules; a slow modem (also C16-C19)", "the simulated storages and the messages put there", "histories to 3 (4 thorough); 2 deviations (3)", ""),
'C16': ("every report is read, removed and attached to the message with its reference; waiting senders return when and only when their report has come",
        "all 256 statuses x modes x storages x indexes; histories of sends and reports; timings of reports relative to each step; two senders", "reference -> message map", "", "TP-Status other than 0 and 64-127 is only required not to be 'delivered' where the standard says otherwise; temporary errors are unspecified"),
'C17': ("read/list/delete/process return and remove exactly the messages concerned",
        "operation histories over storages with gaps, all mixtures of message kinds (received, report, draft, sent, broken), both modes; failing commands; two threads", "list model of the storages", "histories to 3 (4 thorough)", "known finding: see section 4"),
'C18': ("every unsolicited event has exactly its own effect once, in any burst, segmentation and company",
        "all sequences to 3 of 20+ event and noise lines x groupings into bursts; events while a command is pending at every position; events whose lines trickle in; a modem object without any callbacks; schedules", "per-event effect counters over the simulated modem", "", ""),
'C19': ("call objects reflect the state of the calls",
        "all histories of call events and user actions to depth 4-6 over up to three calls, per family, every notice form; races between events and actions", "a call-table model", "", ""),
'C20': ("dial() returns the call it started or raises in time, wherever the modem's reports fall",
        "timings of each report relative to the acknowledgement and to the timeout; how the model is recognised; the type of the call; no polling once no call is left; an identifier used again before the end of its call was noticed; failures; next attempt; schedules with callbacks, incoming calls, two dialling threads", "call table of the simulated modem, virtual clock", "1-2 deviations (2-3 thorough)", ""),
'C21': ("several modem objects behave as each would alone; DTMF tones are sent in full, in order, in the form of the own modem; invalid states raise",
        "all pairs of 10 modem kinds x scripts x merges of the two scripts; tone strings; which calls support tones; error codes; call states; two threads", "the same script run alone", "", ""),
'C22': ("USSD requests return their own reply and session state",
        "orders of acknowledgement, reply, release; codes; texts; splitting; failures; refused replies and cancellations; session histories; schedules", "the network script", "", ""),
'C23': ("status queries return what the modem said; settings change modem and value together; waiting for coverage ends correctly",
        "reply values; query sequences; settings accepted/refused in all orders; all sequences of registration and signal values to a length x timeouts; schedules", "the simulated modem's state, virtual clock", "", ""),
'C24': ("the Trie equals a dictionary with exact prefix queries", "all operation sequences to a depth over branching keys; key sets in every insertion order; the AT command table; empty keys, falsy values", "dict", "depth 5 quick, 6+ thorough", ""),
'C25': ("the terminal edits and transmits the line as typed; SMS prompt, history, notifications, scripts, raw mode, exit keys",
        "all key sequences to a depth over every special key; lines; messages (a modem that asks at once, after 2.5 s, or not at all); notifications at every point, shown by themselves; scripts; schedules of typing and reception", "a plain line editor and a VT100-like screen model", "", ""),
'C26': ("TAB completion only completes; help and listings never send or stop anything", "every prefix of every command x case x suffix, listings complete or counted; help forms, with every word of the help entry shown", "prefix arithmetic over the command table", "", ""),
'C27': ("sendsms, identify-modem and gsmterm do what their arguments ask and their exit status and output are true", "options x SIM states x coverage x failing steps x delivery reports; item values x unsupported items; key sequences; wrong usage", "the simulated modem, the plain line editor", "", "the scripts are run whole (as __main__) on the virtual threads, with their standard streams replaced"),
}
