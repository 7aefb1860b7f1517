#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
LL="src/parse/link_layer.rs"; CI="src/parse/transport_layer/control_info.rs"; HD="src/parse/transport_layer/header.rs"
MF="src/parse/transport_layer/manufacturer.rs"; AP="src/parse/application_layer/application.rs"
DIB="src/parse/application_layer/dib.rs"; VIB="src/parse/application_layer/vib.rs"; REC="src/parse/application_layer/record.rs"
FR="src/parse/application_layer/frame.rs"; NUM="src/parse/types/number.rs"; DATE="src/parse/types/date.rs"; STR="src/parse/types/string.rs"
ERR="src/parse/error.rs"; LIB="src/lib.rs"; BIN="src/bin/test_parse.rs"; MAC="libmbus_macros/src/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Decoding is total: no bytes can crash or hang it",
"For every byte string, decoding it as a packet, a message, a frame body, a record or one of their parts returns either a decoded value or an error. It never panics, aborts or fails to terminate, with overflow checks and debug assertions enabled or not. Rendering the resulting error as text does not panic either.",
["inputs"],"every byte string handed to any public decoder (numbers of at most 9 BCD / 8 binary bytes)",
"The tests feed 70 well-formed captures; hostile, truncated and reserved encodings (length fields below 2, 11 DIFEs, encrypted or unsupported messages) are not reached, and malformed-frame captures in the repository are not run at all.",
[LL,CI,HD,AP,DIB,VIB,REC,FR,NUM,DATE,STR,ERR],
[("every reserved code is mapped to an error","all match arms of the decoders"),("bounded repetition: 10 DIFEs, 10 subcodes, BCD/binary width limits",DIB)],
["Packet::parse","MBusMessage::parse","Frame::parse","Record::parse","and the public sub-decoders"])

p("C02","Exactly the well-formed link-layer frames are accepted",
"A byte string is decoded as a packet iff it is the single byte E5, or a short frame (10, control, address, checksum, 16), or a long frame (68, L, L, 68, control, address, L-2 payload bytes, checksum, 16) with nothing after it, where L is at least 2, the control byte is a defined one, the checksum is the sum modulo 256 of control, address and payload, and the payload of a long frame is itself a decodable message. The decoded packet is of the corresponding kind and carries the frame's own address byte and exactly its payload.",
["inputs"],"all byte strings; every length field, checksum value, payload content and position",
"The tests use only accepted long frames, in the field length range the captures happen to have; nothing checks rejection, short or ACK frames, extreme lengths or checksum wrap-around.",
[LL],[("length confirmation, checksum and tail verification","parse_variable / parse_fixed"),("alternatives cut after the start byte","Packet::parse")],
["Packet::parse on the whole input"])

p("C03","A damaged frame is never mistaken for a valid packet",
"Take any byte string that decodes as a packet. Replacing any one of its bytes by a different value, deleting any one byte, inserting any byte at any position, truncating it anywhere, or appending any byte yields a byte string that is rejected.",
["fault_sequences","inputs"],"every accepted frame x every single-byte fault",
"A fault sweep is quadratic in the frame and 256-fold in values: the tests contain no corrupted frame at all.",
[LL],[("duplicate length field, fixed markers, checksum over control+address+payload, end of input","parse_variable, parse_fixed")],
["Packet::parse on the whole input"])

p("C04","The control byte is decoded to its direction, flags and service",
"In short and long frames alike, bit 6 of the control byte selects primary or secondary; bit 5 is reported as frame count bit or access demand, bit 4 of a secondary frame as data flow control (set means pause). The low four bits select the service: for a primary frame 0, 1, 4, 8, 9 with bit 4 clear are reset link, reset user process, send unconfirmed, request access demand, request link status, and 3, 10, 11 with bit 4 set are send confirmed, request class 1 and request class 2 data; for a secondary frame 0, 1, 8, 9, 11, 14, 15 are ACK, NACK, user data, data unavailable, status, link not functioning and link not implemented. Every other control byte, including all with bit 7 set, is rejected.",
["inputs"],"all 256 control bytes in both frame kinds, with every address",
"The captures contain one or two control bytes (RSP_UD); 0x08 covers one of 46 valid values and no rejection.",
[LL],[("bit-field decoding of the control byte","Control::parse")],["Packet::Short.control, Packet::Long.control"])

p("C05","The CI field selects message kind and header form, payload intact",
"The first payload byte (CI) alone determines which kind of message is produced and whether no header, a 4 byte short header or a 12 byte long header precedes the body; CIs that are reserved or belong to unsupported formats are rejected, as is a payload shorter than its header. Kinds that carry raw data (DLMS, specific usage, authentication, manufacturer specific, image and security transfer, device selection, time sync and adjustment, commands, alarms) report every byte after the header, unchanged and in order, together with the CI where the kind covers several. B8 to BF select the baud rates 300 to 38400 in ascending order.",
["inputs"],"all 256 CI values x payload lengths x payload contents",
"Only response-from-device (72, 78, 7A) occurs in the passing captures, so 250 of 256 CI values are never dispatched by a test.",
[CI],[("CI to header table, then CI to body table: the two have to agree","MBusMessage::parse")],["MBusMessage::parse","Packet::Long.message"])

p("C06","Short and long headers are decoded field by field",
"A long header is identification (8 digit BCD, least significant byte first; anything but decimal digits is rejected), manufacturer (2 bytes, least significant first), version, device type, then the short header; a short header is access number, status and a 2 byte configuration field. The status byte's bits 7 to 2 are reported as manufacturer bits 2, 1, 0, temporary error, permanent error and power low, its low two bits as no error, busy, error, alarm; every device type code has its fixed meaning. Mode bits 8 to 12 of the configuration field equal to 0 are accepted only if the whole field is 0, the reserved modes 6, 11, 12, 14 and 16 to 31 are reported with the raw field value, and every other (encrypted) mode is rejected.",
["inputs"],"all values of every header field, in the short and the long form",
"Captures cover a handful of status, type and configuration values and the tests never look at the decoded fields.",
[HD],[("bit-fields in header order","MeterStatus::parse, SecurityMode::parse, DeviceType::parse"),("long header reuses the short header decoder","LongHeader::parse")],
["ShortHeader::parse","LongHeader::parse","header of the decoded message"])

p("C07","Manufacturer code and product name are derived only from the header",
"The manufacturer of a long header is the three letters packed five bits each in the low 15 bits of its field, and a field that does not consist of three letters A to Z is rejected; unpacking inverts packing for every three-letter code. The product name is a fixed function of manufacturer, version and device type, where for SBC, SEO and GTE the most significant identification byte stands in for the version. A manufacturer field with the top bit set, or a combination that is not listed, has no product name.",
["inputs"],"all 65536 manufacturer fields x 256 versions x all device types x all identification bytes",
"The captures touch about 40 of the 17 million combinations and the tests do not check the name.",
[MF,HD],[("5 bit letter packing","unpack_manufacturer_code"),("product table","device_name")],["LongHeader.manufacturer, LongHeader.device_name","device_name","unpack_manufacturer_code"])

p("C08","A frame body is split into records, fillers and trailer without loss",
"A response body is a sequence of records, with any number of 2F filler bytes between them, that ends at the end of the data, at a 0F byte or at a 1F byte. The decoded frame lists exactly those records in transmission order, each equal to what decoding its own bytes alone gives; more-data-follows is set iff the end marker was 1F, and the manufacturer-specific data is exactly the bytes after the marker (none without a marker). If any record is malformed or cut short, the whole body is rejected.",
["inputs","histories"],"all sequences of records, fillers and end markers, and all trailers",
"Captures have few fillers and trailers, and the tests do not look at the resulting records.",
[FR,REC],[("repeat until end marker, fillers skipped","Frame::parse")],["Frame::parse","MBusMessage::ResponseFromDevice"])

p("C09","Decoding depends on nothing but the bytes",
"The result of decoding an input is the same whatever was decoded before it in the process, accepted or rejected, and however often it is repeated. Within one frame, a record decodes to the same value whatever records, fillers and values surround it.",
["histories"],"all sequences of decode calls over an alphabet of inputs up to a depth; all sequences of records within a frame up to a depth",
"Each test decodes one input once in a fresh state; dependence on earlier calls or earlier records needs sequences.",
[LL,CI,FR,REC,DIB,VIB],[("decoders keep no state outside their arguments","all parse functions")],["Packet::parse","Frame::parse"])

p("C10","The data information block yields type, function and full indices",
"The first byte of a record gives the data type (low four bits), the function (bits 4-5: instantaneous, maximum, minimum, error-state value) and bit 0 of the storage number (bit 6). The n-th extension byte (n from 1, at most 10, present while the previous byte's top bit is set) contributes bits 4n-3 to 4n of the storage number, bits 2n-2 and 2n-1 of the tariff and bit n-1 of the device number; a final extension byte of 00 contributes nothing and marks the storage number as an OBIS register number. Reserved data types (low bits 8 or F), an 11th extension byte and a truncated block are rejected.",
["inputs"],"all DIF bytes and all DIFE chains up to length 11",
"The tests never compare decoded indices, and captures with more than two DIFEs or with a non-zero device number are rare.",
[DIB],[("accumulation of DIFE fields by position","DataInfoBlock::parse")],["DataInfoBlock::parse","Record.dib"])

p("C11","Every value information code maps to its quantity, unit and exponent",
"A primary code 00-7A, a main extension code (after FD), a second-level extension code (after FD FD) and an alternate extension code (after FB) each select the quantity, unit and decimal exponent of EN 13757-3, with unassigned codes reported as reserved and withdrawn ones as retired, carrying their table and code. 7C announces a plain-text unit, 7E any, 7F manufacturer specific, and 7B or 7D without extension bit is reported as invalid; FD FD without a further extension is rejected. The extension bit of a code never changes which quantity it selects.",
["inputs"],"all codes of all four tables, with and without extension bit",
"The tests do not look at the decoded quantity or exponent, and most of the ~400 codes do not occur in captures.",
[VIB,MAC],[("four code tables as range patterns","parse_table_10/12/13/14"),("extension selection","ValueInfoBlock::parse")],["ValueInfoBlock::parse","Record.vib.value_type"])

p("C12","Value information extensions and plain-text units are captured exactly",
"The bytes after the value code are extension bytes for as long as the previous byte's top bit is set: all of them, however many, are reported in order with the top bit removed, and none are reported when there is none. A plain-text unit is a length byte and that many bytes directly after the 7C code and before any extension bytes, reported as UTF-8 text with its characters in reverse order; text that is not valid UTF-8 or is cut short is rejected. Exactly the bytes of the block are consumed.",
["inputs"],"all chains of extension bytes and all plain-text contents up to the bound",
"Captures contain a few one- or two-byte chains and two plain-text units; lengths, multi-byte text and truncation are not tested.",
[VIB,STR],[("loop until the extension bit is clear","dump_remaining_vifes"),("length-prefixed text between code and extensions","parse_length_prefix_ascii")],["ValueInfoBlock::parse","Record.vib"])

p("C13","A record occupies exactly the bytes its data type announces",
"After the information blocks a record consumes 0, 1, 2, 3, 4, 6 or 8 bytes for the integer types, 4 for a real, 1, 2, 3, 4 or 6 for BCD, and the length byte plus the announced number of bytes for variable length data, whatever quantity the value information names. In particular date, time and daylight-saving quantities are interpreted as such only when the data type has their width (2: date; 4: date-time; 3: time; 6: long date-time; 4: daylight saving) and otherwise are read as plain data of the announced width. Fewer remaining bytes are an error, and the next record starts at the next byte.",
["inputs"],"all data types x all value codes x all data",
"Needs the product of 13 data types with about 500 value codes and a following record; the captures contain only consistent combinations.",
[REC,NUM,DATE],[("date types re-checked against the data type","handle_date_types"),("width by data type","Record::parse")],["Record::parse: remaining input"])

p("C14","Binary integers of every width have their exact value and signedness",
"A binary value of 0 to 8 bytes is the little-endian two's complement number its bytes spell, exact for every bit pattern, and is reported as signed unless the quantity is one defined as unsigned (identifications, versions, access codes and passwords, masks, keys, rates, counts, durations and factors), in which case it is the unsigned little-endian number. Too few bytes are an error and exactly the announced bytes are consumed.",
["inputs"],"all bit patterns of 1 to 3 bytes, structured patterns of 4 to 8 bytes, both signs, every quantity",
"Tests enumerate 1 and 2 bytes and a few points of 3, 4, 6 and 8; 5 and 7 bytes (variable length) and the selection by quantity are untested.",
[NUM,REC,VIB],[("widening with sign shift","parse_binary_signed, parse_binary_unsigned"),("choice by quantity","ValueType::is_unsigned, parse_binary")],["parse_binary_signed","parse_binary_unsigned","Record.data"])

p("C15","BCD numbers decode to their digits, anything else is shown verbatim",
"A BCD value of n bytes whose nibbles are all decimal digits, least significant byte first, is the decimal number they spell; if the most significant nibble is F the value is the negated number of the remaining digits. A fixed-width BCD field with any other nibble is not rejected: it is reported as an error value whose text is the 2n hexadecimal digits in upper case, most significant first, with a leading F shown as a minus sign. No digits are lost for any width and exactly n bytes are consumed.",
["inputs"],"all nibble patterns: exhaustively for 1 to 3 bytes, by nibble classes up to 9 bytes",
"Tests check about 35 hand-picked values of one or two bytes; sign and garbage nibbles at each position of wide fields are not covered.",
[NUM,REC],[("digit pairs, last byte special","parse_bcd"),("fallback text","parse_invalid_bcd"),("alternatives","Record::parse")],["parse_bcd","parse_invalid_bcd","Record.data"])

p("C16","Variable length data is interpreted by its length byte",
"The length byte L selects: 00-BF text of L bytes; C0-C9 a non-negative BCD number of L-C0 bytes (a negative one is rejected); D0-D9 the negated BCD number of L-D0 bytes; E0-E8 an integer of L-E0 bytes; E9-EF, F0-F4, F5 and F6 a big number reported as its raw L-E0, 4*(L-EC), 48 and 64 bytes. All other length bytes are rejected, as are BCD numbers with non-decimal digits and data shorter than announced. Exactly the announced bytes are consumed.",
["inputs"],"all 256 length bytes x data patterns x available lengths",
"Captures contain a few text values; BCD, integer and big-number forms never occur in tests.",
[REC,NUM,STR],[("dispatch on the length byte","Record::parse (LVAR)")],["Record.data for variable length records"])

p("C17","Real values are the IEEE 754 single their bytes spell",
"A real-typed record's value has bit for bit the little-endian four bytes that were transmitted, for every bit pattern including zeros of either sign, subnormals, infinities and every NaN. Four bytes are consumed and fewer are an error.",
["inputs"],"all 2^32 bit patterns",
"The test checks five values.",
[NUM,REC],[("little-endian float","parse_real")],["parse_real","Record.data"])

p("C18","Two and four byte dates decode to their fields or are rejected",
"A date has day in bits 0-4, month in bits 8-11 and year in bits 5-7 (low) and 12-15 (high); it is accepted iff it is not all ones, month is at most 12 or is 15, and year is at most 99 or is 127. A four byte date-time adds, before the date, minute (byte 0 bits 0-5: 0-59 or 63, the two upper bits clear), hour (byte 1 bits 0-4: 0-23 or 31), hundred-year (bits 5-6) and summer time (bit 7); years up to 80 with hundred-year 0 are reported with hundred-year 1. All fields are reported unchanged otherwise.",
["inputs"],"all 2^16 dates and all 2^32 date-times",
"Tests sample a dozen dates; the field boundaries in combination are not covered.",
[DATE],[("bit-field decoding with range checks","parse_dmy, TypeGDate::parse, TypeFDateTime::parse")],["TypeGDate::parse","TypeFDateTime::parse","Record.data"])

p("C19","Times and six byte date-times decode to their fields or are rejected",
"A three byte time is second, minute (each 0-59 or 63) and hour (0-23 or 31), one per byte with the unused upper bits clear; anything else is rejected. A six byte date-time has second (bits 0-5 of byte 0; bit 6 summer time, bit 7 leap year), minute (byte 1; bit 6 offset sign, bit 7 must be clear), hour and day of week (byte 2, low 5 and high 3 bits), the date of two bytes, and week 0-53 (low 6 bits) with summer time offset (high 2 bits) in byte 5, the offset being negative when the sign bit is clear; the same ranges apply. Fields are reported unchanged.",
["inputs"],"all 2^24 times; six byte date-times by pairwise-complete field domains",
"Times are sampled by about 70 tests; six byte date-times have no test at all.",
[DATE,REC],[("bit-field decoding with range checks","TypeJTime::parse, TypeIDateTime::parse")],["TypeJTime::parse","TypeIDateTime::parse","Record.data"])

p("C20","Daylight saving rules decode to their fields or are rejected",
"Four byte daylight saving data reports begin hour (byte 0 low 5 bits: 0-23 or 31), begin day and end day (bytes 1 and 2 low 5 bits: 1-31), begin and end month (byte 3 low and high nibble: 1-12), the enable flag (byte 1 bit 7) and the summer time deviation (byte 2 bits 5-6, negative when bit 7 is clear). The deviation from GMT is the 5 bit number whose low three bits are byte 0 bits 5-7 and whose high two bits are byte 1 bits 5-6; it must be 0-23 or 31. Any field out of range rejects the data.",
["inputs"],"all 2^32 values of the four bytes",
"No test covers this type.",
[DATE,REC],[("bit-field decoding with range checks","TypeKDST::parse")],["TypeKDST::parse","Record.data"])

p("C21","Application reset and select messages decode their subcodes",
"A reset/select message (CI 50, 53) without subcode bytes is an application reset. With 1 to 10 subcode bytes, those after the first having a zero upper nibble, it is an application select of the application named by the first byte's upper nibble, and its block number is the concatenation of the bytes' low nibbles, first byte most significant. A selected-application request (54, 55) carries just its header; a response (66-68) decodes its subcodes like a select and is rejected without any.",
["inputs","histories"],"all subcode sequences up to length 3 exhaustively, up to 10 bytes by nibble classes",
"No capture contains these messages.",
[AP,CI],[("fold over subcode bytes","ApplicationMessage::parse")],["MBusMessage::parse"])

p("C22","Application error messages report their error code",
"An error message (CI 6E, 6F, 70) without a code is an unspecified error; otherwise its first body byte selects the error: 00-06, 08, 09, 11-16 and 20-22 each their own fixed meaning, F0 a dynamic error carrying the record that follows, F1-FF a manufacturer specific error carrying its code and all following bytes. All other codes, and F0 without a complete valid record, are rejected.",
["inputs"],"all error codes x bodies x header forms",
"The error captures in the repository are not run by any test.",
[AP,CI],[("code table","ApplicationErrorMessage::parse")],["ApplicationErrorMessage::parse","MBusMessage::parse"])

p("C23","Incremental input: incomplete until complete, verdicts are final",
"When the input is offered as a partial stream, every proper prefix of an acceptable short or long frame, and the empty input, asks for more data instead of being rejected or accepted, and the completed frame decodes to the same packet as the complete input does. A prefix that is rejected stays rejected whatever is appended. The kind of byte stream used to hold the input does not influence the result.",
["histories","inputs"],"every way of cutting frames and byte strings into prefixes; all supported input stream types",
"All tests hand over complete inputs of one stream type.",
[LL],[("generic stream input with incomplete-aware primitives","Packet::parse, Control::parse")],["Packet::parse on Partial and complete streams"])

p("C24","Errors render every recorded context, innermost first",
"Rendering an error prints its cause, if any, on the first line and then exactly one line per recorded context in the order they were added. The first label or assertion is not indented and every further one is indented by one more space than the previous; expectation lines take the indentation of the line before them. Labels read 'invalid X', expectations 'expected X' and assertions 'assertion failed: X'.",
["histories"],"all sequences of recorded contexts up to a depth, with and without cause",
"Tests only compare single context values, never the rendered text of a chain.",
[ERR],[("indentation counter over the context list","Display for MBusError")],["MBusError as text","MBusError::context"])

p("C25","The code pattern macro denotes exactly the codes its bits spell",
"A pattern of E, three bits, a space and four positions - each 0 or 1, or, from some position to the end, n or p wildcards - matches exactly those 7 bit codes whose bits agree with all fixed positions. It can be used as a match pattern and, when it has no wildcard, as a value.",
["programs"],"all 640 well-formed patterns x all 256 byte values",
"The macro has no tests; only the patterns that occur in the tables are expanded, and most codes of those are not looked at.",
[MAC],[("base and mask computation","vif!")],["expansion of vif! in programs"])

p("C26","Dump files are read byte for byte and every file gets its own outcome",
"Reading a .hex file of space-separated two-digit hexadecimal numbers in either case, with optional surrounding white space, yields exactly those bytes, malformed text is an error, and any other file yields its raw content. The command-line tool handles its file arguments in order, announcing each and then reporting the decoded packet on standard output or the error on standard error. A file whose packet is rejected does not stop it from processing the others.",
["inputs","histories"],"all byte values in both cases and positions; all sequences of up to 3 files of each outcome",
"Tests read only valid lower- or upper-case captures and never run the tool.",
[LIB,BIN],[("hex and raw reading","utils::read_test_file"),("loop over arguments","main")],["utils::read_test_file","test_parse output"])

p("C27","Decoding from several threads at once gives the same results",
"Any number of threads may decode inputs at the same time, each obtaining the result it would obtain alone.",
["schedules"],"all interleavings of concurrent decode calls",
"The test runner runs tests in parallel but no test looks at interference.",
[LL],[("no shared mutable state","whole crate")],["Packet::parse"])

p("C28","The effort of decoding is proportional to the input",
"Decoding n bytes allocates memory and executes steps bounded by a fixed multiple of n (plus a constant), whatever the bytes are and whether they are accepted or not. Lengths, counts, storage numbers and other quantities found inside of the data never make the decoder allocate, copy or loop for more than the bytes that are there, and the effort for repeated content grows no faster than its amount.",
["inputs"],"all inputs; contents that repeat in any place",
"Tests look at results of short captures, never at memory or time; quadratic behaviour needs inputs of a shape no meter sends.",
[LL],[("repetition of records, extensions and texts","Frame::parse, DataInfoBlock::parse, ValueInfoBlock::parse, parse_variable")],["every parse function"])

p("C29","A rejection names the part that is at fault",
"The labels of the error for a rejected input, read from the innermost outwards, name the part in which the data ended or stopped being valid, then the parts around it, and no part that was decoded successfully or never reached. Of frames: length, length confirmation, frame marker, control byte, address byte, packet data, checksum, frame tail, or checksum verify if the sum is wrong, in long or short frame header; an undecodable payload is named inside of the long frame header once its frame is found to be intact. Of messages: CI field, reserved or unsupported CI field, and in the short or long header device identifier, manufacturer, version, device type, access number, status or tpl configuration field; Error Code or reserved error code. Of records, in frame record if they are part of a frame: DIF byte, DIFE byte (an assertion for more than 10), initial VIF, VIF extension byte, VIF extension layer 2 byte, vife missing for vif extension level 2, plain text VIF data, VIFE, LVAR value (a reserved or missing length byte), and Type F, G, I or J date or time and Daylight Savings Type K, inside of which an invalid component is named as such. Other faults (surplus bytes, numbers and texts cut short) name only the parts around them.",
["inputs"],"all rejected inputs, whichever part is at fault and whatever surrounds it",
"Tests look at the labels of a few rejections of single date types; which label an input gets depends on backtracking between alternatives and on everything that was decoded before.",
[LL],[("contexts of every parser","Packet::parse, parse_variable, parse_fixed, MBusMessage::parse, LongHeader::parse, Frame::parse, Record::parse, DataInfoBlock::parse, ValueInfoBlock::parse, types/date.rs")],["MBusError::context"])

p("C30","What is decoded ends where its bytes say, whatever follows",
"A record, an information block, a text with a length byte, a number or text of given width, a header, a date, time or daylight saving value, a short frame and an acknowledgement end where their own bytes say. If one is decoded from the start of some input and k bytes are consumed, then those k bytes alone decode to the same value, no proper prefix of them is accepted, and with any other bytes (or none) following them the value is the same, k bytes are consumed and the following ones are left untouched.",
["inputs"],"all inputs from whose start something is decoded, all cuts, all strings that follow",
"Tests decode values that fill their input exactly, so neither reading ahead nor accepting a cut value shows, and what follows a value in a telegram is any of the other values.",
[REC,DIB,VIB,HD,NUM,DATE,STR,LL],[("every decoder takes from the stream what it has decided on by the bytes taken before","Record::parse, DataInfoBlock::parse, ValueInfoBlock::parse, parse_length_prefix_ascii, parse_latin1, parse_fixed")],["Record::parse","DataInfoBlock::parse","ValueInfoBlock::parse","ShortHeader::parse","LongHeader::parse","types::number, types::string, types::date","Packet::parse"])

p("C31","An error keeps what was recorded on its way to the caller",
"An error keeps its cause and every context recorded on it, in the order in which they were recorded, whichever way it came about and passes through: made empty, from an input or from an external error; extended with this library's contexts or with those of the parser library, directly, inside of a recoverable or final error, or by a parser; converted from the parser library's error types, into a recoverable error (which it then is) or into itself; handed over between parsers of bits and of bytes; taken apart and put together again; copied (the copy being equal).",
["histories"],"all sequences of such operations",
"Tests look at the first context of a few errors; what is lost on the way shows only in combinations of conversions and contexts.",
[ERR],[("conversions and context recording","impl AddContext, ErrorConvert, FromExternalError, ParserError for MBusError")],["MBusError::context","MBusError::cause","ErrorConvert::convert","Clone, PartialEq"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
