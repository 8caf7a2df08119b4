#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
R = "rx509/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f for f in files], state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
PARSER, TYPES, CAL, ALL, MOD, EXT, PRN, RDR, OIDF = (R+"der/parser.rs", R+"der/types.rs", R+"der/calendar.rs",
    R+"der/parse_all.rs", R+"x509/mod.rs", R+"x509/ext.rs", R+"x509/printer.rs", R+"der/reader.rs", R+"der/oid.rs")
DP, DM = "decoder/src/der_printer.rs", "decoder/src/main.rs"

p("C01", "Decoding is total: no input makes it panic, overflow or hang",
  "For every byte string, decoding it as generic DER, as a certificate or as a single extension, and then decoding the names and the extension list of what was accepted, reading its bit strings and integers and printing it, returns normally with a value or an error. No input causes a panic, an arithmetic overflow, an out-of-bounds access, exhaustion of the call stack or an endless loop, however long it is or however deeply its elements are nested.",
  ["inputs"], "all byte strings, of any length and nesting depth, at every public decoding and printing entry point",
  "Universal over all inputs; the tests decode four well-formed certificates and about thirty short fragments, and never print, iterate a bit string or nest deeper than a real certificate.",
  [PARSER, RDR, TYPES, ALL, MOD, EXT, PRN], [("cursor that can only shrink", RDR), ("explicit stack of open containers", ALL), ("unused-bit and length validation", PARSER)],
  ["parse_all", "Certificate::parse", "Extension::parse", "Extensions::parse", "Name::parse", "Printable::print", "ASNBitString::iter/size"])

p("C02", "The identifier octet alone decides whether and as what an element is read",
  "An element is accepted only if its identifier octet is one of the supported primitive universal types, the constructed universal SEQUENCE or SET, or a context-specific identifier in low-tag-number form, and it is then reported as exactly the type, and for context-specific elements the tag number 0-30, which that octet denotes. Every other octet (application and private class, multi-octet tag numbers in any class, unsupported universal numbers, universal types with the wrong primitive/constructed bit) is rejected as unsupported wherever in the input it occurs.",
  ["inputs"], "all 256 identifier octets, at the top level and at any depth, with any contents",
  "Tests try two unsupported octets and the handful of types present in four certificates, out of 256 octets in every position.",
  [PARSER, TYPES], [("identifier decomposition", TYPES+" Identifier::from"), ("type table", PARSER+" read_type")],
  ["ParseHandler::on_type", "parse_all result", "Certificate::parse result"])

p("C03", "Only minimal definite lengths are accepted and they delimit the contents",
  "The length of an element is accepted only in the definite form with the fewest possible octets and at most four of them; indefinite, reserved, longer and non-minimal encodings are rejected, in every element at every depth. The contents of an accepted element are exactly the number of octets encoded, big-endian, immediately after its header, and an element claiming more octets than remain in the container that holds it is rejected even when more input follows that container.",
  ["inputs"], "all length encodings (short form, 0-127 length octets, all values up to 2^32-1) in every container",
  "Tests exercise about a dozen length headers in isolation; none checks the interplay between a length and the end of the enclosing container, and no value above 2^24 has matching contents.",
  [PARSER, RDR], [("minimum value per octet count", PARSER+" parse_length"), ("bounds-checked take", RDR+" take")],
  ["ParseHandler::on_type", "parse_all result"])

p("C04", "The generic decoder visits every element once, in order, with its exact contents",
  "A successful generic decode reports exactly the elements of the input in pre-order: each element once, siblings in input order, the elements inside a SEQUENCE, SET or context-specific element between that element and its next sibling. Sibling elements are adjacent and fill their container completely, so every input octet belongs to exactly one reported header or one primitive element's contents.",
  ["inputs"], "all byte strings accepted by the generic decoder, of any shape, width and depth",
  "Tests only assert that decoding two certificates returns no error; they ignore every reported element.",
  [ALL, PARSER], [("recursive descent over contents", ALL), ("sequential cursor", PARSER+" Iterator for Parser")],
  ["ParseHandler callbacks with the position of each borrowed slice"])

p("C05", "Decoder callbacks are properly bracketed and end at the first error",
  "A begin notification directly follows the report of each SEQUENCE, SET or context-specific element (also an empty one) and of no other element, and its matching end notification follows the last element inside, so that on success all brackets are closed. On malformed input the callbacks are those of the elements preceding the fault in pre-order, followed by exactly one error notification, which is the last callback and carries the same error the call returns; brackets open at that point stay open.",
  ["inputs", "histories"], "all byte strings, hence all callback histories, including faults at every position and depth",
  "The test handler's callbacks are empty, and no test decodes a malformed input through the callback interface.",
  [ALL, DP], [("begin/end around descent", ALL), ("error short circuit", ALL)],
  ["order of ParseHandler callbacks", "returned Result"])

p("C06", "A cut-short element is always an error, never the silent end of a list",
  "No proper non-empty prefix of an encoded element is accepted. More generally, wherever the contents of a container end in the middle of an element - in a list of extensions, of alternative names, of key purposes, of name components, or anywhere else, with all enclosing lengths consistent - decoding that container reports an error instead of treating the fragment as the end of the list.",
  ["inputs", "fault_sequences"], "all truncation points of all containers of all certificates, extensions and names",
  "Only one test truncates an input (a single SEQUENCE); none truncates an element at the end of a list.",
  [PARSER, RDR, EXT, MOD], [("end-of-list detection", PARSER+" expect_or_end"), ("EndOfStream", RDR)],
  ["Certificate::parse", "Extension::parse", "Extensions::parse", "Name::parse", "parse_all"])

p("C07", "Nothing may follow the last field of any structure",
  "Octets after a complete value are never ignored: extra elements or bytes after the certificate, or at the end of its certificate, TBS, validity, algorithm-identifier, public-key-info, version, name-attribute, extension-list and extension structures, or after the value inside a key-identifier, key-usage, basic-constraints, alternative-name, extended-key-usage or role extension (or at the end of the basic-constraints structure), make the decode of that structure fail. The same holds for characters after the time-zone designator of a time.",
  ["inputs"], "all values of each structure, with every kind of trailing octets (well-formed or not)",
  "No test appends anything to a valid structure.",
  [PARSER, MOD, EXT], [("expect_end after each structure", PARSER+" Parser::parse_all / expect_end"), ("outer sequence check", PARSER+" unwrap_outer_sequence")],
  ["Certificate::parse", "Extension::parse", "Extensions::parse", "Name::parse", "parse_all for times"])

p("C08", "Booleans, nulls and integers decode to exactly the encoded value",
  "A boolean is true exactly for the single content octet FF and false exactly for 00, and any other contents are rejected; a null must be empty; an integer must have at least one octet and keeps its octets unchanged. The 32-bit view of an integer is the two's-complement big-endian value whenever the contents have one to four octets, and is absent otherwise.",
  ["inputs"], "all content octet strings of these types",
  "No test decodes a boolean or a null directly, and none looks at an integer's numeric view, negative values or four-octet values.",
  [PARSER, TYPES], [("content parsers", PARSER+" parse_boolean/parse_null/parse_integer"), ("numeric view", TYPES+" ASNInteger::as_i32")],
  ["ParseHandler::on_type", "ASNInteger::as_i32", "ASNInteger::bytes"])

p("C09", "A bit string exposes exactly its used bits, most significant first",
  "A bit string is accepted only if its first content octet is an unused-bit count of at most seven, and zero when no further octet follows. Its size is eight times the number of data octets minus that count, iterating it yields exactly that many bits in order from the most significant bit of the first data octet, and the octet view is available - and is exactly the data octets - if and only if the count is zero.",
  ["inputs"], "all contents of bit strings, any number of octets and unused bits",
  "No test reads a bit from a bit string.",
  [PARSER, TYPES], [("unused-bit validation", PARSER+" parse_bit_string"), ("bit iterator", TYPES+" ASNBitStringIterator")],
  ["ASNBitString::size", "ASNBitString::iter", "ASNBitString::octets"])

p("C10", "Object identifiers decode to the arcs their octets encode",
  "The contents of an object identifier are read as a non-empty sequence of base-128 numbers, each ending at the first octet with a clear top bit; the first number X yields the two leading arcs (X div 40 and X mod 40, except that the first arc is 2 and the second X-80 for X of 80 or more) and every later number yields one arc of the same value. Contents that are empty, end inside a number, or contain a number of more than four octets are rejected.",
  ["inputs"], "all content octet strings of object identifiers",
  "Two known identifiers are decoded by tests; neither has a first arc of 2, a number near a 7-bit boundary, or a defect.",
  [PARSER, TYPES], [("base-128 reader", PARSER+" parse_object_identifier")],
  ["ASNObjectIdentifier::values"])

p("C11", "String values are exactly the encoded octets and always valid UTF-8",
  "A UTF8, printable or IA5 string is accepted if and only if its contents are well-formed UTF-8 (no overlong forms, surrogates, code points above 10FFFF or incomplete sequences), and its value is then exactly the content octets. This holds for strings met by the generic decoder and for those in names and extensions alike.",
  ["inputs"], "all content octet strings of the three string types",
  "Tests only see ASCII strings of four certificates and do not look at their values.",
  [PARSER, EXT, MOD], [("UTF-8 validation", PARSER+" parse_string")],
  ["ParseHandler::on_type", "name component values", "alternative names", "role extension"])

p("C12", "Times denote the exact UTC second, and only real calendar instants are accepted",
  "A time is accepted only in the form YYMMDDhhmmssZ (years 1970-2049, two-digit years from 50 on meaning 19xx) respectively YYYYMMDDhhmmssZ, with decimal digits in every position, a month 01-12, a day that exists in that month of that Gregorian year, hour 00-23, minute and second 00-59, and no date before 1970. The value reported is the number of seconds from 1970-01-01T00:00:00Z to that instant in the Gregorian calendar, so later instants always have larger values.",
  ["inputs"], "all content strings of both time types, hence every second from 1970 to 9999",
  "Tests sample four instants of about 2.5*10^11 and no malformed time; leap-year, century and month-length rules hold or fail per date.",
  [PARSER, CAL], [("digit and range checks", PARSER+" parse_time"), ("day count", CAL)],
  ["ParseHandler::on_type", "Validity::not_before/not_after"])

p("C13", "Values render as text faithfully",
  "The textual form of a decoded element names its type and shows its value: integers of up to four octets in decimal and longer ones as all their octets in upper-case colon-separated hexadecimal, object identifiers as their registered display name if they are one of the ten known ones and otherwise as all arcs in dotted decimal, booleans as true/false, strings verbatim, times as seconds since 1970, context-specific elements as their bracketed tag number. Two different short integers or unknown identifiers never render alike.",
  ["inputs"], "all decodable elements",
  "No test formats any value.",
  [TYPES, OIDF], [("Display implementations", TYPES), ("known identifiers", OIDF)],
  ["Display of ASNType, ASNInteger, ASNObjectIdentifier"])

p("C14", "Certificates need every mandatory field, each read from its own position",
  "A certificate is accepted only if it is one SEQUENCE of TBS certificate, signature algorithm and signature value, where the TBS part has, in this order, an optional version, serial number, signature algorithm, issuer, validity, subject and public key info, each of the required type. Every field of the result is the decoded value of exactly the element in its own position, and a certificate lacking a mandatory field, or with a field of another type or with fields exchanged for ones of different type, is rejected.",
  ["inputs"], "all certificates, and all single and multiple structural deviations from them",
  "Tests decode four well-formed certificates and check only that the result is not an error.",
  [MOD, PARSER], [("field-by-field schema", MOD+" TBSCertificate::parse, Certificate::parse")],
  ["Certificate fields"])

p("C15", "Optional certificate fields are present exactly when encoded, in order",
  "The version is v1 when no version element is present, otherwise v1, v2 or v3 for the encoded values 0, 1 and 2, and any other value is rejected. The issuer unique identifier, subject unique identifier and extensions are reported as present exactly when elements tagged 1, 2 respectively 3 follow the public key info in that order, with exactly the encoded bits or octets; elements with other tags, repeated or out of order are rejected.",
  ["inputs"], "all combinations of presence, order, repetition and value of the optional fields",
  "The four test certificates use the default version or v3 with extensions; no test has a unique identifier or checks the version.",
  [MOD, PARSER], [("optional tagged fields", PARSER+" get_optional_explicit_tag"), ("version mapping", MOD+" parse_version")],
  ["TBSCertificate::version, issuer_unique_id, subject_unique_id, extensions"])

p("C16", "The preserved TBS octets are exactly the signed region's contents",
  "The raw octets kept with an accepted certificate's TBS part are exactly the content octets of the TBS SEQUENCE in the input, borrowed in place, so that re-adding that SEQUENCE's header reproduces the signed bytes; the decoded TBS fields all lie inside these octets. All other borrowed results (serial number, names, strings, octet strings, extension contents) are likewise the exact sub-range of the input that encodes them, never a copy of other octets.",
  ["inputs"], "all accepted certificates",
  "No test compares the raw bytes with the input.",
  [MOD, PARSER, RDR], [("Constructed", MOD), ("borrowing cursor", RDR)],
  ["Constructed::bytes", "positions of all borrowed slices"])

p("C17", "Each recognised name attribute is captured once; duplicates are rejected",
  "Decoding an issuer or subject name yields, for each of country, state, locality, organization, organizational unit and common name, the value of the single attribute of that type if there is one, and nothing otherwise, regardless of how attributes are grouped into sets and of unrecognised attributes in between, which are ignored whatever their value type. A name with two attributes of one recognised type, a recognised attribute whose value is not a UTF8, printable or IA5 string, or an empty set is rejected.",
  ["inputs"], "all sequences of attribute sets, with any grouping, order, repetition and value types",
  "No test decodes a name.",
  [MOD], [("single-instance slot filling", MOD+" RelativeDistinguishedName::parse_single")],
  ["Name::parse"])

p("C18", "The extension list keeps every extension, in order, with its criticality",
  "Decoding the extensions yields one entry per encoded extension in the encoded order, each with its identifier and with the critical flag equal to the encoded boolean, or false when none is encoded. An extension lacking its identifier or its octet-string value, or with fields in another order or of other types, makes the decode fail rather than being skipped.",
  ["inputs"], "all lists of extensions of any length, known and unknown, critical and not",
  "No test decodes an extension list.",
  [EXT, MOD], [("list loop", EXT+" Extensions::parse"), ("envelope", EXT+" Extension::parse")],
  ["Extensions::parse", "Extension::parse"])

p("C19", "Key usage flags mirror the encoded bits",
  "In a decoded key-usage extension the nine flags digital signature, content commitment, key encipherment, data encipherment, key agreement, certificate signing, CRL signing, encipher only and decipher only are set exactly when bit 0 to 8 respectively of the encoded bit string is one. Bits not encoded count as zero, and further bits are ignored.",
  ["inputs"], "all bit strings of any length and unused-bit count, in particular all 512 flag combinations",
  "No test decodes a key-usage extension.",
  [EXT, TYPES], [("bit loop", EXT+" KeyUsage::parse"), ("bit iterator", TYPES)],
  ["KeyUsage fields of Extension::parse / Extensions::parse"])

p("C20", "Basic constraints report the CA flag and path length exactly",
  "A decoded basic-constraints extension reports CA as the encoded boolean (false if absent) and the path length limit as the encoded integer, present exactly when encoded. A path length not representable in 32 bits, or any other element in the structure, makes the decode fail.",
  ["inputs"], "all encodings of the basic-constraints structure",
  "No test decodes a basic-constraints extension.",
  [EXT, PARSER], [("optional fields", EXT+" BasicConstraints::parse"), ("get_optional", PARSER)],
  ["BasicConstraints of Extension::parse / Extensions::parse"])

p("C21", "Alternative names keep every name, in order, with its kind and value",
  "A decoded subject-alternative-name extension lists one entry per encoded name in the encoded order: tags 1, 2 and 6 as mail, DNS and URI text, tag 7 as address octets and tag 8 as registered object identifier, each with exactly the encoded value. A name of any other kind, or with an invalid value for its kind, makes the decode fail instead of being dropped.",
  ["inputs"], "all lists of general names with any tags, values and lengths",
  "No test decodes an alternative-name extension.",
  [EXT, PARSER], [("tag dispatch", EXT+" SubjectAlternativeName::parse"), ("implicit contents", PARSER+" parse_implicit")],
  ["SubjectAlternativeName of Extension::parse / Extensions::parse"])

p("C22", "Extended key usage lists exactly the encoded purposes",
  "A decoded extended-key-usage extension lists the encoded purposes in order, each of the six supported purpose identifiers (server, client, code signing, e-mail, time stamping, OCSP signing) mapped to its own purpose. Any other identifier or element in the list makes the decode fail, so that no purpose is dropped, invented or exchanged.",
  ["inputs"], "all lists of object identifiers, including ones close to the supported ones",
  "No test decodes an extended-key-usage extension.",
  [EXT], [("purpose table", EXT+" ExtendedKeyUsagePurpose::try_from_id")],
  ["ExtendedKeyUsage of Extension::parse / Extensions::parse"])

p("C23", "An extension is interpreted only under its own identifier, others stay raw",
  "The contents of an extension are interpreted as subject key identifier, key usage, alternative name, basic constraints, extended key usage or Modbus role exactly when its identifier is the one registered for that kind (2.5.29.14, .15, .17, .19, .37 and 1.3.6.1.4.1.50316.802.1), critical or not; key identifier and role then hold exactly the encoded octets and text. Every other identifier, however similar, yields the unmodified raw octets whatever they contain, and never an error.",
  ["inputs"], "all identifiers and all contents",
  "No test decodes an extension.",
  [EXT], [("identifier dispatch", EXT+" Extension::parse")],
  ["Extension::content"])

p("C24", "The validity period is the encoded one and includes both end points",
  "The validity of an accepted certificate consists of the two encoded times in order, each UTC or generalized. A certificate is reported valid at an instant exactly if that instant is neither before the first nor after the second time, both ends included, so it is never valid when the first lies after the second; the present instant the library provides for this is the system clock's, in whole seconds.",
  ["inputs"], "all pairs of encoded times and all query instants",
  "No test calls the validity query or compares the decoded period.",
  [MOD, TYPES], [("inclusive comparison", MOD+" Validity::is_valid"), ("order of fields", MOD+" Validity::parse")],
  ["Validity::is_valid", "Validity::not_before/not_after"])

p("C25", "Printing a certificate shows every decoded field once, properly nested",
  "Printing an accepted certificate emits, in a fixed order, version, serial number, algorithms, issuer, validity, subject, public key, optional identifiers, all extensions with identifier, criticality and contents, and the signature, each with the decoded value; names that do not decode are shown as raw octets and undecodable extensions as an error line. Nesting is balanced: every block opened is closed, no more blocks are closed than were opened, and fields of one structure appear at one level below their heading. On the console each line begins with two blanks per open block, whatever the client printing is and however deep.",
  ["inputs", "histories"], "all accepted certificates, with every combination of optional, decodable and undecodable parts",
  "No test prints anything.",
  [MOD, EXT, PRN], [("Printable implementations", MOD+", "+EXT), ("print_type bracketing", PRN)],
  ["LinePrinter call sequence", "console output"])

p("C26", "The command-line tool reports the decode faithfully for every file",
  "For a readable file the tool prints to standard output the element tree (--der), one element per line indented by its depth, with bit-string octets in hexadecimal below their element, or the certificate (--certs); if decoding fails it reports the error on standard error and, for --der, still prints the elements before the fault, and in all these cases exits with status 0. With a wrong number of arguments, an unknown flag or an unreadable file it prints no decode and exits with a non-zero status; it never crashes while its output streams accept data, and never alters the file. Environment variables and terminals make no difference to any of this.",
  ["inputs", "configurations"], "all file contents and all argument lists",
  "The tool has no tests.",
  [DM, DP, PRN], [("argument handling", DM), ("indented printing", DP)],
  ["stdout, stderr and exit status of the decoder program"])

p("C27", "Decoding is a function of the bytes alone and composes",
  "Decoding the same bytes gives the same result every time, in any order of calls, from any number of threads, whatever was decoded before - however often, and also by calls that a client's callback or printer did not return from - and whatever follows the bytes in memory. Decoding the concatenation of two inputs reports the elements of the first and then those of the second, and wrapping an input in a SEQUENCE, SET or context tag reports the same elements one level deeper.",
  ["inputs", "histories", "schedules"], "all pairs of inputs, all call histories and interleavings of concurrent calls",
  "Tests decode single inputs once each and never relate two decodes.",
  [ALL, PARSER, MOD], [("no shared state", PARSER), ("cursor local to a call", ALL)],
  ["parse_all callbacks", "Certificate::parse", "Extension::parse"])

p("C28", "The error reported is the first fault, described with its actual values",
  "When decoding fails, the error describes the first violated rule in reading order, in its textual form stating the offending value: the unsupported identifier's class, form and number, the length form or value, the boolean, null or unused-bit value, the position of invalid UTF-8, the expected and the actual element type, the unexpected identifier, tag, version or trailing element. Generic decoding, certificate decoding and extension decoding report the same fault of the same element in the same words.",
  ["inputs"], "all rejected inputs with one or several faults",
  "About ten error values of isolated header decoding are tested; no certificate or extension error is.",
  [PARSER, TYPES, MOD, EXT], [("error variants and their Display", TYPES), ("order of checks", PARSER)],
  ["Display of the returned ASNError"])

p("C29", "Elements compare by type and value and are accessible by their type only",
  "Two decoded elements are equal exactly if they have the same type and the same value: strings and containers octet for octet, integers and bit strings by what they encode, identifiers arc for arc, instants by the second they denote, context tags by number and contents, and instants are ordered as they lie in time. A wrapper type yields the value of elements of its own type and of no other, names that type as its own, and making an element from the value yields an equal element. What two decodes return is equal exactly if both succeed or both report the same fault.",
  ["inputs"], "all pairs of elements of all types, all pairs of outcomes",
  "Tests compare a dozen decoded elements with expected ones, which are equal; hardly any is compared with one it must differ from, and the order of instants is never looked at.",
  [TYPES], [("derived equality and order", TYPES), ("ASNWrapperType::get_value", TYPES), ("get_id", TYPES)],
  ["PartialEq of ASNType and ASNError", "PartialOrd of UtcTime", "ASNWrapperType::get_value and get_id", "constructors"])

p("C30", "The tool notices output that is refused and input that comes in pieces",
  "If standard output takes only part of what the tool prints - a full device, a closed pipe, a size limit reached at any octet - what was taken is the beginning of the complete output and the exit status is not zero; so it is if the error message cannot be written to standard error. A file that is a pipe is decoded as a whole however its contents arrive, and an error while opening or reading the file ends the run with a non-zero status and without a decode.",
  ["fault_sequences", "inputs"], "all octets at which output can be refused, all sinks, all ways contents can arrive",
  "No test runs the tool, let alone with a device that is full or a pipe.",
  [DM, DP, PRN], [("println! panics on failure", DP), ("read_to_end", DM), ("console printer", PRN)],
  ["octets accepted by standard output", "exit status", "standard error"])

p("C31", "Decoding holds memory in proportion to what is there, and gives it back",
  "A generic decode holds memory only for the containers that are open and the element it is about to report: not for elements already reported, not for octets passed, and nothing for octets that a length claims but that are not there. Decoding a certificate, a name, an extension or a list of extensions holds at most a fixed multiple of the octets present. After the result is dropped, whether it was a value or an error, everything is given back, so that decoding any number of inputs one after another does not accumulate memory.",
  ["inputs", "histories"], "all inputs, all claimed lengths, all depths and numbers of siblings",
  "No test looks at memory; a decoder that reserves what a length claims, keeps what it has passed or leaks a little on one path passes all of them.",
  [ALL, PARSER, MOD, EXT], [("stack of open containers", ALL), ("borrowed contents, arcs of identifiers", PARSER), ("lists of extensions, names and purposes", EXT)],
  ["memory held by parse_all before each callback", "memory held by Certificate::parse, Extension::parse, Extensions::parse, Name::parse", "memory left after the results are dropped"])

p("C32", "Decoding takes time in proportion to the input, whatever the input",
  "Decoding, and answering every query on what was decoded, takes processor time in proportion to the octets of the input: for every nesting, every number of elements, siblings, extensions, names, attributes, purposes and identifier arcs, and every length of strings, integers and bit strings. An input that is refused takes no longer than one that is accepted. No input, however it is arranged, makes the work grow faster than its size.",
  ["inputs"], "all shapes of input, at sizes at which work that grows with the square of the size is thousands of times longer",
  "Tests decode inputs of a few kilobytes, on which quadratic work is not noticed.",
  [ALL, PARSER, MOD, EXT], [("one pass over the input", ALL), ("lists of extensions, names and purposes", EXT), ("names and attributes", MOD)],
  ["processor time of parse_all, Certificate::parse, Extension::parse, Name::parse and of the queries on their results"])

p("C33", "Every part prints on its own, at any depth, from its values alone",
  "Any printable value - certificate, to-be-signed part, algorithm, name decoded or raw, validity, key, bit string, extension, extension content or one kind of content - printed on its own inside any number of open blocks emits exactly the lines it contributes within a whole certificate, shifted by that depth, with balanced blocks. It makes no difference whether the value was decoded or put together by the client from public fields and constructors, including combinations no certificate has: empty texts, any flags, repeated purposes, negative path lengths, kinds of names the decoder does not produce, an identifier that does not fit the content. An extension prints under the name of its content's kind, and an identifier stands for a purpose exactly if it is one of the six.",
  ["inputs", "configurations"], "all printable values, decoded or made by a client, at every depth",
  "No test prints anything, and none makes a value of its own.",
  [MOD, EXT, PRN], [("Printable implementations", MOD+", "+EXT), ("ExtendedKeyUsagePurpose::try_from_id", EXT), ("Extension::new", EXT)],
  ["LinePrinter call sequence of every Printable", "ExtendedKeyUsagePurpose::try_from_id"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
