"""The properties, in one place."""

TRUST = ('Every input within the stated bounds is covered by symbolic paths whose assertions Z3 decides '
         '(or the term rewriter, when both sides reduce to the same term); a counterexample is replayed on the '
         'real build before it is reported, and sampled paths are replayed too. Trusted: the SSA translation and '
         'interpreter in /verif/engine, Z3, and the reference functions in the harness. ')

def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, technique=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
             note=TRUST + note)
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    if technique:
        d['technique'] = technique
    PROPS.append(d)

PROPS = []
NA = {}
NOTES = 'One engine (engine/) executes the SSA of /repo and of the harness functions (harness/h) symbolically; see DESIGN.md.'

P('C01', 'GSM 7-bit packing follows the standard bit layout and loses nothing',
  'Packing any sequence of septets behind any number of fill bits gives exactly the octets of the 3GPP TS 23.038 bit layout, '
  'and unpacking any octets reads exactly the septets of that layout. Unpacking what was packed returns the same septets, '
  'followed by one zero septet exactly when the last octet has seven spare bits. The input is never modified.',
  ['inputs'], 'all septet sequences up to 40 (thorough 160) and octet sequences up to 30 (140), every fill 0..6',
  'Tests use a handful of strings; the defects live in the combinations of length modulo 8, fill bits and bit values.',
  ['encoding/gsm7/7bit.go'], [('Pack7Bit, Unpack7Bit', 'encoding/gsm7/7bit.go')],
  'Bounds: sequence lengths above.')

P('C02', 'USSD packing adds a CR filler exactly where the standard does',
  'Packing for USSD adds the CR filler septet exactly when seven bits are spare, doubles a CR that ends on an octet boundary, and otherwise equals plain packing. '
  'Unpacking for USSD returns the original septets of anything packed for USSD that does not itself end in the ambiguous final CR.',
  ['inputs'], 'all septet sequences up to the stated length, every fill 0..6',
  'The filler depends on length, fill and the value of the last septet together; tests check single points of that space.',
  ['encoding/gsm7/7bit.go'], [('Pack7BitUSSD, Unpack7BitUSSD', 'encoding/gsm7/7bit.go')],
  'Two defects were found here and repaired.')

P('C03', 'Semi-octet numbers encode and decode exactly',
  'Any string of the fifteen digits packs two to an octet, low half first, with the fill half-octet only after an odd number of digits, and decodes to itself. '
  'Encoding fails exactly when some character is not a digit, naming the first such character; decoding any octets never reads or writes beyond what it was given.',
  ['inputs'], 'all digit strings up to 16 (thorough 40) and to 90 (300) with one free digit, all short byte strings, up to 4 (5) octets against every destination length and to 12 (40) with two free ones',
  'Tests sample strings; the fill and length handling depends on every position and value.',
  ['encoding/semioctet/semioctet.go'], [('Encode, Decode', 'encoding/semioctet/semioctet.go')], '')

P('C04', 'BCD octets are exact, signed and unsigned',
  'Every integer from 0 to 99 encodes to its swapped BCD octet and every integer from -79 to 79 to its signed octet, and both decode to themselves; every other integer is refused. '
  'Every octet either decodes to the number its decimal digits spell or is refused because a digit is not decimal.',
  ['inputs'], 'all 64-bit integers, all 256 octets',
  'The tests enumerate most octets but sample the integers, and a wrong range check shows only outside the sample.',
  ['encoding/bcd/bcd.go'], [('Encode, EncodeSigned, Decode, DecodeSigned', 'encoding/bcd/bcd.go')], 'No bound: the input space is covered entirely.')

P('C05', 'Addresses survive their binary form, numeric and alphanumeric',
  'Any number and any text of the default alphabet, with any type-of-address octet, encodes to exactly the standard address field and decodes from it to the same address, reading exactly the field whatever follows. '
  'Text or digits that the field cannot represent, or more of them than it can count, are refused rather than altered; any octets are refused or decode to an address that encodes to the same octets, and text is as long as the semi-octets it is said to have, whatever their spare bits. '
  'The bits of the type-of-address octet read as the types of number and plans of the standard; setting a number, type of number or numbering plan changes only that part.',
  ['inputs'], 'numbers up to 20 (thorough 60) digits, texts up to 11 (20) characters with 2 (4) unrestricted positions, one unrestricted rune, 21 to 258 digits and 12 to 148 characters (one of them unrestricted), all octet strings up to 7 (9)',
  'Tests use a few addresses; alphanumeric lengths interact with packing (the spare septet), and the type-of-address bits select the coding.',
  ['encoding/tpdu/address.go', 'encoding/semioctet/semioctet.go', 'encoding/gsm7/gsm7.go', 'encoding/gsm7/7bit.go'],
  [('Address.MarshalBinary, UnmarshalBinary, SetNumber, Number', 'encoding/tpdu/address.go')], '')

P('C06', 'Timestamps survive their binary form for every date, time and zone',
  'Seven octets that name a real date, time and quarter-hour zone decode to that local date, time and zone offset and encode back to the same octets. '
  'An instant within the years the field can hold encodes to the octets of its local date, time and zone, and comes back unchanged to the second. '
  'Octets that are not decimal, or too few, are refused.',
  ['inputs'], 'all years 1970..2069, months, days, times and zones -79..79 quarters; all octet strings up to 8',
  'Tests check a few instants; sign of zone, half-octet order, century pivot and month lengths only combine over the whole space.',
  ['encoding/tpdu/timestamp.go', 'encoding/bcd/bcd.go'], [('Timestamp.MarshalBinary, UnmarshalBinary', 'encoding/tpdu/timestamp.go')],
  'The calendar accessors of package time are taken by their contract for instants built from in-range fields in a fixed zone.')

P('C07', 'Validity periods encode to the nearest representable period and back',
  'Every relative octet means the period of the standard table and encodes back to itself; any duration encodes to the longest representable period not exceeding it, or to the shortest when it is below the range and the longest when above. '
  'Every well-formed enhanced or absolute field decodes to its stated period and encodes back to itself; a duration outside what an enhanced format can state encodes to its nearest end; malformed fields are refused and set nothing.',
  ['inputs'], 'all 256 relative octets, all 64-bit durations in every format, all 7-octet enhanced and absolute fields',
  'Tests list table points; boundaries between the four ranges and the enhanced sub-formats are where the mistakes are.',
  ['encoding/tpdu/validityperiod.go'], [('ValidityPeriod.MarshalBinary, UnmarshalBinary, SetRelative, SetEnhanced, SetAbsolute', 'encoding/tpdu/validityperiod.go')],
  'int(Duration.Hours()) and the like are reduced by a rounding argument (engine/linear.go).')

P('C08', 'User data headers survive their binary form and stay within it',
  'Any header of information elements encodes to the standard octets with the right length and decodes to the same elements, reading exactly the header whatever follows; one longer than its length octet can say is refused. '
  'Any octets are either refused, setting nothing, or read as elements that lie entirely within the stated header length, are independent copies and encode back to the same octets.',
  ['inputs'], 'up to 3 (4) elements with up to 4 (6) octets of any data, and headers of 5 to 258 octets and of up to 127 elements; all octet strings up to 10 (14)',
  'Tests use a few headers; element lengths that overrun the header but not the buffer are the kind of input samples miss (a defect of that kind was found and repaired).',
  ['encoding/tpdu/userdata.go'], [('UserDataHeader.MarshalBinary, UnmarshalBinary, UDHL', 'encoding/tpdu/userdata.go')], '')

P('C09', 'Concatenation info and element lookup read the header correctly',
  'The concatenation information of a header is that of its last well-formed 8-bit reference element, else that of its last 16-bit reference element, else absent with zero values. '
  'Looking up an element returns the last one with that identifier, and looking up all returns all of them in order.',
  ['inputs'], 'headers of up to 5 (thorough 6) elements of any identifier and 0 to 5 octets (of 0, 3 or 4 octets beyond two elements), and up to 60 (127) elements two of which are arbitrary',
  'Tests check single-element headers; precedence, duplicates and malformed lengths only show with several elements.',
  ['encoding/tpdu/userdata.go'], [('ConcatInfo, ConcatInfo8, ConcatInfo16, IE, IEs', 'encoding/tpdu/userdata.go')], '')

P('C10', 'Data coding scheme is read and changed as the standard defines',
  'Each of the 256 coding schemes reads as the alphabet, message class and compression that the standard assigns it. '
  'Changing alphabet or class gives a scheme that reads as asked with the other attributes kept, or is refused, as what is no alphabet or class always is, and leaves the scheme unchanged.',
  ['inputs'], 'all 256 octets with every alphabet and class and numbers that are neither',
  'Tests list many octets for reading but sample the changes; keeping the other attributes is a relation over all of them.',
  ['encoding/tpdu/dcs.go'], [('DCS.Alphabet, Class, Compressed, WithAlphabet, WithClass', 'encoding/tpdu/dcs.go')], 'No bound: the input space is covered entirely.')

P('C11', 'Every kind of TPDU has the standard binary form and survives it',
  'A TPDU of each of the six types, with any field values its type carries, marshals to exactly the octets of 3GPP TS 23.040 and unmarshals to a TPDU of the same type with the same fields. '
  'Optional parts appear exactly when the first octet or parameter indicator announces them, and the user data length counts septets for the default alphabet and octets otherwise. '
  'Reserved types, reserved codings, user data that is not whole UCS-2 characters and user data longer than its length octet can say are refused.',
  ['inputs'], 'all six types, every first octet, PID, DCS, parameter indicator and validity period, addresses up to 3 digits, headers up to one element, user data up to a few septets, octets or characters, and of 24 lengths from 20 to 258 with some of it free',
  'Tests marshal a few hand-made TPDUs; the fields interact through indicator bits, the alphabet, the header and fill bits, which multiply.',
  ['encoding/tpdu/tpdu.go', 'encoding/tpdu/firstoctet.go', 'encoding/tpdu/parameterindicator.go'],
  [('TPDU.MarshalBinary, UnmarshalBinary', 'encoding/tpdu/tpdu.go')],
  'Reports without a failure cause (FCS 0) are the known finding KF1.')

P('C12', 'Segmentation loses nothing, splits no character and fits every segment',
  'Segmenting any message with any template gives segments whose user data, in order, is exactly the message, each within the user data field of its type together with its header, no character or escape pair split, and no segment shorter than it need be. '
  'A message that fits one TPDU has one segment without concatenation information; otherwise every segment carries the same reference and count and its own number from 1, and the header and fields of the template; one that needs more than 255, or that the header leaves no room for, is not segmented. '
  'Each TPDU marshals with its user data, reports too. Counters advance once per segment and once per multi-segment message, and the template and message are not modified.',
  ['inputs'], 'messages of up to 4 segments of a few units with any content, with headers that leave that room, little or none, messages around one full TPDU for every type, and messages of 9, 17, 128 and 253 to 256 segments with free content about one boundary',
  'Tests use a few texts; where boundaries fall depends on the content, the header size and the alphabet together.',
  ['encoding/tpdu/tpdu.go'],
  [('TPDU.Segment', 'encoding/tpdu/tpdu.go'), ('chunk7Bit, chunk8Bit, chunkUCS2', 'encoding/tpdu/tpdu.go')],
  'Segments are kept short by a large template header, so a few units of free content reach every boundary.')

P('C13', 'GSM 7-bit text follows the character tables, in both directions',
  'Any octets decode to exactly the characters that the selected locking and shift tables of 3GPP TS 23.038 give, and strict decoding refuses exactly the septets without a character. '
  'Any text encodes to the septets, escaped where in the shift table only, that decode to it, or is refused exactly when some character is in neither table. '
  'An identifier without a table selects the default, and custom tables are used as given.',
  ['inputs'], 'every table alone and every language with both of its tables, octets up to 3 (4), and up to 160 (300) with two of them free, every Unicode character, alone and between others',
  'Tests encode selected characters per table; a wrong or missing entry in one of 28 tables shows only for that character.',
  ['encoding/gsm7/gsm7.go', 'encoding/gsm7/charset/charset.go'],
  [('Decoder.Decode, Encoder.Encode', 'encoding/gsm7/gsm7.go'), ('NewDecoder, NewEncoder and the tables', 'encoding/gsm7/charset')],
  'The tables are compared with an independent transcription (harness/h/nltables.go). Three Hindi entries are the known finding KF2.')

P('C14', 'Any text encodes to user data that decodes to the same text',
  'Encoding text as user data with any set of available character sets gives user data, header and alphabet that decode to the same text with the same character sets or with all. '
  'The coding chosen is the first in the documented order (default alphabet, locking tables, shift tables, both of one language, UCS-2) that has every character, the header names exactly the tables in use, and octets that are not UTF-8 read as the replacement character.',
  ['inputs', 'configurations'], 'every form of the character set options over all languages, every Unicode character alone, with a second from selected languages, and in texts of 71 to 401 characters',
  'Tests try a few texts and option lists; the choice depends on which tables hold all the characters at once.',
  ['encoding/tpdu/userdata.go', 'encoding/tpdu/options.go', 'encoding/gsm7/gsm7.go', 'encoding/ucs2/ucs2.go'],
  [('EncodeUserData, DecodeUserData', 'encoding/tpdu/userdata.go')], '')

P('C15', 'UCS-2 text is UTF-16, with surrogate pairs and errors handled exactly',
  'Any octets decode to the characters of big-endian UTF-16, an unpaired surrogate becoming the replacement character without affecting its neighbours. '
  'An odd number of octets is refused, and an unpaired surrogate at the very end is reported with its octets and everything before it. '
  'Any text encodes to UTF-16 that decodes to it.',
  ['inputs'], 'octets up to 8 (12) and up to 600 with four of them free, up to 3 characters of any value',
  'Tests decode a few pairs; surrogates in the wrong order, doubled or at the end are combinations of values (a defect was found and repaired).',
  ['encoding/ucs2/ucs2.go'], [('Decode, Encode', 'encoding/ucs2/ucs2.go')], '')

P('C16', 'Decode gives the text of all segments together and modifies nothing',
  'Decoding segments gives the concatenation of their texts, each in the alphabet of its own coding scheme and with the character sets its own header names as far as they are available. '
  'UCS-2 segments decode to the text of all their octets together, so a surrogate pair may be split between segments; a segment that is not whole characters is refused, and an unpaired surrogate at the very end is reported. '
  'Neither the segments nor the memory beyond their user data are written to.',
  ['inputs', 'configurations'], 'up to 3 (4) UCS-2 segments of any octets, up to 2 segments of any mix of alphabets with every kind of character set option, 5 to 255 segments with free content about one boundary',
  'Tests decode a few messages; what one segment does to the next (carried surrogates, tables, spare capacity) only shows for particular contents and memory layouts.',
  ['sms.go', 'options.go', 'encoding/ucs2/ucs2.go', 'encoding/tpdu/userdata.go'],
  [('Decode', 'sms.go'), ('DecodeUserData', 'encoding/tpdu/userdata.go')], 'Three defects were found here and repaired.')

P('C17', 'A message arrives as it was sent: Encode, transport, Collect, Decode',
  'Encoding any text, sending every TPDU through its binary form in any order to a Collector and decoding what it gives back yields the text that was encoded, for mobile-originated and mobile-terminated messages and any set of character sets. '
  'The TPDUs are of the right type, each fits, carries the number and template header, and is numbered in order. '
  'A coding scheme given in the template is sent as one that names the alphabet of the user data with the same class, or the conflict is reported.',
  ['inputs', 'configurations', 'histories'], 'texts with 1 (2) characters of any value at chosen places, up to 4 segments and 10 to 12 (20), every arrival order of few segments, all 256 template coding schemes',
  'Tests send a few texts in order; the parts have to agree on header, alphabet, fill bits and segment boundaries for every text.',
  ['sms.go', 'encode.go', 'collect.go', 'options.go', 'encoding/tpdu/tpdu.go'],
  [('Encode, Unmarshal, Decode', 'sms.go'), ('Collector.Collect', 'collect.go')], '')

P('C20', 'PDU mode frames survive their binary and hex form',
  'A service centre address and a TPDU have exactly the binary and hex form of PDU mode and come back from them. '
  'Addresses with a character that is not a digit or longer than the length octet can say, frames whose address is cut off and strings that are not hex octets are refused, exactly those, and everything else reads as the address it holds and the octets that follow it.',
  ['inputs'], 'addresses up to 21 (30) digits, TPDUs up to 3 (8) octets, and up to 200 (300) with one of them free, all octet strings up to 6 (10), all strings up to 5 (8)',
  'Tests use a few frames; the address length counts octets here and digits elsewhere, which only shows for particular lengths and fill.',
  ['encoding/pdumode/pdu.go', 'encoding/pdumode/smscaddress.go'],
  [('PDU.MarshalBinary, MarshalHexString, UnmarshalBinary, UnmarshalHexString', 'encoding/pdumode/pdu.go'), ('SMSCAddress', 'encoding/pdumode/smscaddress.go')], '')

P('C21', 'IsCompleteMessage recognises complete messages exactly',
  'A list of TPDUs is a complete message exactly when it is one TPDU without concatenation information, or every TPDU has it with the same reference and the number of TPDUs as the count, and they are numbered from one in order.',
  ['inputs'], 'up to 4 (6) TPDUs with any 8-bit, 16-bit or no concatenation information, and 7 to 255 TPDUs with one of them any',
  'Tests list a few wrong lists; a duplicate, a foreign reference or a wrong count at one position is one of very many.',
  ['sms.go'], [('IsCompleteMessage', 'sms.go')], '')

P('C23', 'Flags, indicators and types of a TPDU agree with its fields',
  'Every first octet and parameter indicator reads as the flags of the standard, and changing type or validity period format changes only those bits. '
  'After any sequence of setters and options the flags agree with the fields (header indicator, parameter indicator, validity period format, type and direction) and nothing else has changed. '
  'A TPDU is made with its options applied in order, and an option that fails is reported.',
  ['inputs', 'histories'], 'all octets, all sequences of 3 (4) of nine changes with any values',
  'Tests apply setters one at a time; an indicator that one setter leaves wrong for another needs a sequence.',
  ['encoding/tpdu/tpdu.go', 'encoding/tpdu/options.go', 'encoding/tpdu/firstoctet.go', 'encoding/tpdu/parameterindicator.go'],
  [('SetDCS, SetPID, SetVP, SetUD, SetUDH, SetSmsType, New', 'encoding/tpdu/tpdu.go'), ('WithUDH, WithDA, WithOA', 'encoding/tpdu/options.go')], '')

P('C27', 'UDBlockSize is exactly the user data that fits the TPDU',
  'The room reported for user data is the largest number of octets or septets that fits the user data field of the type together with the header, whole characters for UCS-2; '
  'user data of that size marshals to at most the field, one more unit does not, and segmentation agrees.',
  ['inputs'], 'all six types, all codings of each alphabet, headers up to 2 (3) elements of various lengths; every header up to 16 (60) octets',
  'Tests check a few headers; the septet boundary depends on the header length modulo 7.',
  ['encoding/tpdu/tpdu.go'], [('TPDU.UDBlockSize, maxUDL, UDHL', 'encoding/tpdu/tpdu.go')], '')

P('C28', 'Character sets are used for decoding only when they are available',
  'User data decodes with the locking and shift tables that the last elements of their kind in the header name, when the caller has made them available, and otherwise with the default ones; malformed elements name the default. The user data is not modified.',
  ['inputs', 'configurations'], 'headers up to 2 (3) elements of any identifier value, every kind of option, 1 (2) free septets alone or escaped, and 3 to 40 elements with 70 (160) septets',
  'Tests cover single elements; precedence, missing data and tables that are not available multiply.',
  ['encoding/tpdu/userdata.go', 'encoding/tpdu/options.go'], [('DecodeUserData, UDDecodeConfig', 'encoding/tpdu/userdata.go')], '')

P('C24', 'Any octets are refused with an exact error or give a usable TPDU',
  'Unmarshalling any octets in either direction never panics and never modifies them: it gives a TPDU of the type that the first octet and direction name, which can be decoded, collected, asked for its room and its concatenation information without a panic, '
  'or nothing and an error that names a field, a cause and an offset within the octets. '
  'A segment whose number is not within its count is refused by the collector, and octets shorter than the fixed part of their type are refused. '
  'User data is accepted exactly when its length, the lengths in its header and the octets there are agree, and is then what they say.',
  ['inputs'], 'every type, all octet strings up to 4 (6) octets longer than the fixed part, addresses up to 2 (4) digits, every validity period format, one arbitrary octet per timestamp; user data of 3 (17) sizes up to 255 octets with any stated length, header length and element length among those near the boundaries',
  'Tests use a few truncated TPDUs; where lengths inside the octets disagree with the octets is a combination of positions and values.',
  ['sms.go', 'encoding/tpdu/tpdu.go', 'encoding/tpdu/error.go', 'collect.go'],
  [('Unmarshal, Decode, IsCompleteMessage', 'sms.go'), ('TPDU.UnmarshalBinary', 'encoding/tpdu/tpdu.go'), ('NewDecodeError', 'encoding/tpdu/error.go'), ('Collector.Collect', 'collect.go')],
  'Timestamps and addresses with arbitrary octets throughout are in C05 and C06.')

P('C26', 'What was unmarshalled marshals, and means the same again',
  'A TPDU unmarshalled from any octets marshals, unless its coding is reserved; unmarshalling that gives a TPDU with the same fields, and marshalling it gives the same octets again. Its first octet is as read, and user data in octets is written as it was read.',
  ['inputs'], 'every type, all octet strings up to 3 (6) octets longer than the fixed part, addresses up to 1 (3) digits, every validity period format',
  'Tests marshal and unmarshal TPDUs made by hand; octets that are not as this package would write them (fill bits, empty headers, unused bits) are where reading and writing disagree.',
  ['encoding/tpdu/tpdu.go', 'encoding/tpdu/userdata.go', 'encoding/tpdu/validityperiod.go'],
  [('TPDU.MarshalBinary, UnmarshalBinary', 'encoding/tpdu/tpdu.go')],
  'Reports without a failure cause (KF1) and periods that only minutes or seconds of sixty and more take to 100 hours are outside.')

P('C29', 'An error names the field, the place and the reason',
  'Octets that end within a TPDU are refused with an underflow error that names the type and the field they end in (the next field where they end between two), at an offset within that field, and the fields before it are set. '
  'A field whose octets mean nothing (digits that are not decimal, a filler within a number, reserved formats and codings, octets that should be zero, octets too many) is named with its offset and that reason. '
  'A TPDU that cannot be marshalled is refused with an error that names the type, the field and the reason.',
  ['inputs'], 'every type with every optional part, cut off at every octet; addresses up to 2 (4) digits, user data of 2 (4) octets, septets or characters with and without a header; every field with every value that means nothing',
  'Tests have one error for each field of one TPDU; where a field is depends on the address, the optional parts and the validity period before it.',
  ['encoding/tpdu/error.go', 'encoding/tpdu/tpdu.go', 'encoding/tpdu/address.go', 'encoding/tpdu/userdata.go', 'encoding/tpdu/validityperiod.go', 'sms.go'],
  [('NewDecodeError, EncodeError', 'encoding/tpdu/error.go'), ('TPDU.UnmarshalBinary, MarshalBinary', 'encoding/tpdu/tpdu.go')], '')

P('C22', 'The commands print what the library gives, and fail exactly when it does',
  'smscounter prints the counts of the TPDUs a message is sent as; smssubmit prints the hex of those TPDUs, numbered; smsdeliver prints the sender and text of every message whose TPDUs it is given in any order, carrying on past what it cannot read and reporting what is not complete; '
  'smsdecode prints every field of any TPDU, plain or in PDU mode, or fails with the reason exactly when it cannot be unmarshalled; charsets lists every table with each character at its septet. Without what they need they fail and say how they are used; none panics.',
  ['inputs', 'configurations'], 'messages with 1 character of any value at chosen places up to 3 TPDUs, languages none and 2 (3), segments in any order with and without a missing and an unreadable one; TPDUs of each type with all flags, all field values, or 3 (5) arbitrary octets at the end; command lines of up to 2 (3) arbitrary characters',
  'Tests cover two inner functions with a few cases and never run a command; what is printed for optional parts and what happens to bad arguments is untested.',
  ['cmd/smscounter/smscounter.go', 'cmd/smssubmit/smssubmit.go', 'cmd/smsdeliver/smsdeliver.go', 'cmd/smsdecode/smsdecode.go', 'cmd/charsets/charsets.go'],
  [('main, NewCount', 'cmd/smscounter/smscounter.go'), ('main', 'cmd/smssubmit/smssubmit.go'), ('main', 'cmd/smsdeliver/smsdeliver.go'), ('main, decode, dumpTPDU', 'cmd/smsdecode/smsdecode.go'), ('main, Display', 'cmd/charsets/charsets.go')],
  'os, flag, log and printing to standard output are stand-ins that record; the flag stand-in reads -name, -name value and -name=value.')

SCHED = ('symbolic execution of the Go SSA of the code with modelled threads, timers and locks: schedules up to a preemption bound, '
         'vector clocks for data races, assertions decided by Z3 (bit-vectors); counterexamples replayed on the scheduled real code and under the race detector')
SCHEDNOTE = ('Threads switch at locks, atomics, channel operations, timer calls and thread starts; code between them is race free or reported, so no other switch can matter. ')

P('C18', 'The collector loses nothing, mixes nothing and gives back whole messages',
  'Every segment the collector accepts is, at any time, in exactly one place: in a message it gave back, among the segments passed to the expiry handler, or in a pipe. A message is given back when, and only when, its last segment arrives, complete and in order; '
  'segments are of one message exactly when type, address, reference and count agree; a TPDU that is not one of several is given back at once; duplicates, impossible numbers and other types are refused and change nothing, nor do they give a message more time. '
  'An incomplete message expires once, with what was collected and not before the timeout, never without one; closing stops all timers and refuses what comes after; snapshots do not change; the handler may itself use the collector. '
  'All of this holds whatever threads, timers and closing do at the same time, without races or deadlock.',
  ['inputs', 'schedules', 'histories'], 'histories of 4 (5) operations over three interleaved messages of two or three segments with any sequence numbers, any expiry and closing; two threads of two segments each with any sequence numbers, and one to three segments against expiring timers, snapshots and closing, with up to 2 to 3 (4) preemptions; any two addresses of up to 1 (2) characters, any two references that differ by one bit or by one; messages of up to 255 segments with one of any number at one place',
  'Tests run single threads with real timers; the windows between a timer that fires, its clean-up, the next segment and closing cannot be hit on purpose.',
  ['collect.go'], [('Collector.Collect, Close, Pipes, WithReassemblyTimeout', 'collect.go'), ('pduKey', 'collect.go')],
  SCHEDNOTE + 'Timers are modelled: one may expire at any switch once armed; its function is a thread.',
  technique=SCHED,
  state=[('Collector.pipes', 'the incomplete messages by key', 'collect.go'), ('pipe.cleanup', 'the timer of an incomplete message', 'collect.go')])

P('C19', 'An encoder numbers segments and messages, and keeps messages apart',
  'Over any sequence of messages an encoder gives consecutive message references to segments and the next concatenation reference to each message of several segments, and to no other, starting from wherever its counters are; messages that are refused, as those of more than 255 segments are, or empty take none. '
  'Options given for one message have no effect on later ones. Encoders that share counters share the numbering, others do not. '
  'Used from several threads at once, an encoder gives each segment and each message of several segments a reference of its own and encodes each as it would alone, without races.',
  ['inputs', 'schedules', 'histories'], 'sequences of 4 (5) messages of ten kinds with any characters, and of 300 (1000), counters starting anywhere up to 2^62; two or three threads of one or two messages with up to 2 (4) preemptions',
  'Tests encode one or two messages with a fresh encoder; what leaks from one message to the next or between threads depends on the sequence and on spare capacity of shared slices.',
  ['encode.go', 'encoding/tpdu/tpdu.go', 'options.go'], [('Encoder.Encode, NewEncoder, Encode', 'encode.go'), ('Counter.Count, Read', 'encode.go'), ('TPDU.Segment, WithMR, WithConcatRef', 'encoding/tpdu/tpdu.go')],
  SCHEDNOTE, technique=SCHED,
  state=[('Encoder.MsgCount, ConcatRef', 'the counters', 'encode.go')])

P('C25', 'Everything that does not change a value may be done with it by many threads',
  'Character set tables obtained for the first time by two threads at once are complete for both. Text encoded and decoded by several threads, a TPDU that several threads marshal, segment, decode, collect or use as a template, and octets, text, options, coders and addresses that several threads share, '
  'give each thread what it would get alone: no operation that does not set something writes to its receiver, its arguments, their spare capacity or shared tables without synchronisation.',
  ['inputs', 'schedules'], 'every pair of table kinds and languages; every pair of nine operations on a shared TPDU and nine on shared inputs, all with spare capacity; two threads with up to 1 to 2 (2 to 4) preemptions',
  'Tests run one thread; a table generated on first use or a write to spare capacity is invisible to them.',
  ['encoding/gsm7/charset/charset.go', 'encoding/tpdu/tpdu.go', 'encoding/tpdu/userdata.go', 'sms.go', 'encode.go', 'encoding/gsm7/gsm7.go', 'encoding/pdumode/pdu.go'],
  [('NewDecoder, NewExtDecoder, NewEncoder, NewExtEncoder', 'encoding/gsm7/charset/charset.go'), ('TPDU.MarshalBinary, Segment', 'encoding/tpdu/tpdu.go'), ('EncodeUserData, DecodeUserData', 'encoding/tpdu/userdata.go')],
  SCHEDNOTE, technique=SCHED)

P('C30', 'Every call stands on its own',
  'What a call of any of the coders, of Encode, Decode, Unmarshal, Segment, the PDU mode frames or a collector gives depends on what it is given and on nothing else: the same call gives the same again, whatever calls came between, also refused ones, and whatever was done with their results. '
  'A later call does not alter the result of an earlier one, and no call alters the octets it was given.',
  ['inputs', 'histories'], 'every pair of 34 ways of using the library, in sequences of four calls with results overwritten between, with any two octets each where both are of the same kind, and any two octets for the first and four choices (any) for the second otherwise',
  'Tests look at a result once, right after the call; a buffer that is reused, a table or header that is shared or an option that sticks shows in the next call or in the last result.',
  ['encoding/gsm7/gsm7.go', 'encoding/gsm7/7bit.go', 'encoding/ucs2/ucs2.go', 'encoding/semioctet/semioctet.go', 'encoding/tpdu/tpdu.go', 'encoding/tpdu/userdata.go', 'encoding/tpdu/address.go', 'encoding/pdumode/pdu.go', 'encode.go', 'sms.go', 'options.go', 'collect.go'],
  [('Encode, Decode, Unmarshal', 'sms.go, encode.go'), ('EncodeUserData, DecodeUserData', 'encoding/tpdu/userdata.go'), ('TPDU.Segment, MarshalBinary, UnmarshalBinary', 'encoding/tpdu/tpdu.go')], '')
