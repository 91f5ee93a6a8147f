_N = 'All obligations of the listed functions are discharged by Verus for all inputs and all iterations on the text extracted from the current tree; a bounded replay of the real code under ASan/UBSan looks for a concrete failing input. Trusted: Verus/Z3, clang, the translator, the assumed contracts of the C++ standard library and of the abstract streams. '

prop('C01', 'Base64 output is standard and decodes back to the data',
 'For every byte sequence, every way the input stream divides it into reads and every line-length limit of at least one group, the base64 encoding is the standard alphabet text with correct padding, in lines no longer than the limit, each ended by CRLF. Decoding that text, or the standard text wrapped by anyone else with any white space between characters, yields exactly the original bytes. No read or write leaves an internal buffer, whatever the input.',
 'every data, line-length limit, division of the input in reads, and (memory safety) every encoded text', 'The tests encode a few short strings; data lengths near the internal buffer sizes, short reads and line limits are never combined.',
 ['src/vmime/utility/encoder/b64Encoder.cpp'], [('group encoding and padding', 'b64Encoder.cpp encode'), ('alphabet lookup tables', 'b64Encoder.cpp sm_alphabet / sm_decodeMap'), ('buffered decoder', 'b64Encoder.cpp decode')],
 units=['b64'], harness='b64', budget=10, theorems=['property_roundtrip'], note=_N + 'The limit 0 for the line length is excluded (division by zero there is reported in DESIGN.md).')

prop('C02', 'Quoted-printable output is legal and decodes back to the data',
 'For every byte sequence and every division of the input into reads, the quoted-printable text has only legal characters, no line longer than the limit (76 at most) and decodes back to exactly the same bytes, in binary mode, in text mode (where line breaks are kept as such) and in the header variant. No line ends with bare white space, and no access leaves an internal buffer, whatever the input.',
 'every data, mode, line-length limit of at least 1 and division of the input in reads', 'The tests encode a dozen strings with one division of the input; the positions of line breaks, dots and soft breaks relative to the limit are not explored.',
 ['src/vmime/utility/encoder/qpEncoder.cpp'], [('escaping and soft line breaks', 'qpEncoder.cpp encode'), ('decoder', 'qpEncoder.cpp decode')],
 units=['qp'], harness='qp', budget=8, theorems=['property_roundtrip'], note=_N)

prop('C03', 'Uuencoded text decodes back to the data and file name',
 'For every byte sequence, every division of the input into reads and every line-length limit, the uuencoded text is a header with the mode and file name, lines of at most 45 bytes holding exactly the data, and the trailer; decoding it gives back exactly the data and the file name. Decoding lines of any legal length (up to 63 bytes) works as well, and no text, however malformed, makes the decoder leave its buffers or loop.',
 'every data, file name, mode, line-length limit, division of the input in reads; every text given to the decoder', 'The only test is one text; lengths not multiple of three, other line lengths, short reads and malformed lines are not sampled.',
 ['src/vmime/utility/encoder/uuEncoder.cpp'], [('line encoder', 'uuEncoder.cpp encode'), ('line decoder and header parser', 'uuEncoder.cpp decode'), ('complete reads', 'uuEncoder.cpp readFully')],
 units=['uu'], harness='uu', budget=8, theorems=['property_roundtrip'], note=_N + 'File names and modes longer than 500 characters together, or with NUL or line-end characters, are outside the round-trip theorem (not outside memory safety).')

prop('C05', 'SMTP message data cannot end early and reaches the server unchanged',
 'For every message content and every way it is cut into writes, the bytes sent after DATA contain no end-of-data line (not even in the lax forms with bare line ends) before the one sent at the end, and a receiver that removes the leading dot of each line, as RFC 5321 requires, gets exactly the content when it is in canonical form. The result does not depend on how the content was cut.',
 'every content and every division into write calls', 'The tests use short texts and a few divisions; dots right at a division are not explored.',
 ['src/vmime/utility/filteredStream.cpp', 'src/vmime/net/smtp/SMTPTransport.cpp'], [('dot stuffing', 'filteredStream.cpp dotFilteredOutputStream::writeImpl, flush')],
 units=['dotout'], harness='filters', budget=6, theorems=['property_no_early_end', 'property_received', 'lemma_d_split'],
 note=_N + 'Known finding: a content whose very first character is a dot not followed by a line end is sent without the extra dot (an existing test requires it).')

prop('C06', 'Line-end conversion filters are exact however the data is cut',
 'The CRLF-to-LF output filter turns every CRLF into LF and changes nothing else; the LF-to-CRLF filter produces text in which every line end (CR, LF or CRLF) is CRLF and nothing else changes; neither result depends on how the data is cut into writes, and no byte is lost once the stream is flushed. Text with LF line ends is unchanged by going to CRLF and back, and text already in canonical form is unchanged by the LF-to-CRLF filter.',
 'every data and every division into write calls', 'The tests use short texts and a few divisions.',
 ['src/vmime/utility/filteredStream.cpp', 'src/vmime/net/sendmail/sendmailTransport.cpp'], [('CRLF to LF', 'filteredStream.cpp CRLFToLFFilteredOutputStream'), ('LF to CRLF', 'filteredStream.cpp LFToCRLFFilteredOutputStream')],
 units=['eolfilters'], harness='filters', budget=6, theorems=['property_crlf2lf', 'property_pure_crlf', 'property_crlf_idem', 'property_lf_roundtrip', 'lemma_l_split', 'lemma_c_split'], note=_N)

prop('C07', 'POP3 message data is read exactly up to its terminator and unstuffed',
 'For every byte stream and every way it is divided into reads, the stop-sequence filter delivers exactly the bytes before the first terminator (CRLF.CRLF, or LF.LF), never a byte more or less and never past the given buffer, and all the bytes if there is none; the dot filter removes exactly the dots a POP3 server added, whatever the reads.',
 'every byte stream, division into reads and buffer size', 'The tests use a few short streams with fixed divisions.',
 ['src/vmime/utility/filteredStream.hpp', 'src/vmime/utility/filteredStream.cpp', 'src/vmime/net/pop3/POP3Response.cpp'], [('stop sequence', 'filteredStream.hpp stopSequenceFilteredInputStream<5>::read, <3>::read'), ('dot removal', 'filteredStream.cpp dotFilteredInputStream::read')],
 units=['stopseq', 'dotin'], harness='filters', budget=6, theorems=['property_stop5', 'property_stop3', 'property_unstuff', 'lemma_i_split'], note=_N + 'The instantiations for the sequences used by POP3 (5 and 3 characters) are proved; the one-character specialisation is replayed only (bounded).', bounded='stopSequenceFilteredInputStream<1>::read: replay on generated streams only')

prop('C12', 'URLs survive being written and parsed; bad texts only raise malformed_url',
 'Percent-encoding leaves only characters that are not reserved in URLs and decoding gives back exactly the original bytes. A URL built from a scheme (lower-case letters, digits, +, -, . and not "file"), an optional user name and password, a non-empty host, a port, a path and parameters, each with any bytes whatsoever, is written as a text that parses back to exactly the same parts; square brackets appear only around IPv6 addresses. Parsing any text either succeeds or raises malformed_url, nothing else.',
 'every byte string in every part of a URL; every text given to the parser', 'The tests parse a couple of dozen well-formed URLs; delimiters inside parts are hardly sampled.',
 ['src/vmime/utility/url.cpp', 'src/vmime/utility/urlUtils.cpp', 'src/vmime/utility/stringUtils.cpp'],
 [('percent-encoding', 'urlUtils.cpp encode, decode'), ('building a URL', 'url.cpp build'), ('parsing a URL', 'url.cpp parse')],
 units=['url'], harness='url', budget=8, theorems=['property_url_decode_encode', 'property_url_charset', 'url_build', 'url_parse'],
 note=_N + 'A password without a user name is not written and is excluded; the port 65535 is the value meaning "no port". The conversion of the port text by istringstream is an assumed contract.')

prop('C13', 'Text helpers (comparison, trimming, quoting, host names) are exact',
 'For every text: the case-insensitive comparisons are equality after lowering the ASCII letters only; trimming removes exactly the white space at both ends; a text quoted with backslashes is given back by unquote; the 7-bit test is true exactly for texts with only ASCII characters and the position of the first other character is exact; a host name is accepted exactly when its dot-separated labels are non-empty, made of letters, digits and dashes, without a dash at either end (and a fully qualified name has at least two dots).',
 'every text (of less than 32767 characters for host names)', 'The tests sample a few texts per helper.',
 ['src/vmime/utility/stringUtils.cpp', 'src/vmime/utility/stringUtils.hpp'],
 [('comparison', 'stringUtils.cpp isStringEqualNoCase'), ('trimming, case', 'stringUtils.cpp trim, toLower, toUpper'), ('quoting', 'stringUtils.cpp quote, unquote'), ('host names', 'stringUtils.cpp isValidFQDNImpl')],
 units=['su'], harness='su', budget=6, theorems=['property_unquote_quote', 'property_nocase', 'property_trim_idem'],
 note=_N + 'makeHexStringFromBytes (a template of iostreams in the header) is replayed only.', bounded='makeHexStringFromBytes: replay on generated data only')

prop('C14', 'Calendar arithmetic: time zones, comparisons, week days and week numbers',
 'For every valid date (day existing in its month, any zone, even of a day or more): converting to universal time or to another zone gives a valid date denoting the same instant; the six comparison operators compare instants, so equal instants written in different zones are equal and the order is total; the day of the week is the one of the proleptic Gregorian calendar and the ISO week number is the one of ISO 8601. Days and months which do not exist are refused with out_of_range.',
 'every date of years 1 to 100,000,000 (comparisons and conversions: also years before), zones up to +/- 1,000,000 minutes', 'The tests check a few dates and zones; month, year and leap-day crossings combined with zones are hardly sampled.',
 ['src/vmime/utility/datetimeUtils.cpp', 'src/vmime/dateTime.cpp'],
 [('conversion between zones', 'datetimeUtils.cpp toUniversalTime, toLocalTime'), ('comparisons', 'dateTime.cpp operator<, ==, ...'), ('calendar', 'datetimeUtils.cpp getDayOfWeek, getWeekOfYear, getDaysInMonth')],
 units=['dtarith'], harness='dt', budget=6, theorems=['lemma_order', 'lemma_cmp', 'lemma_zeller', 'lemma_iso', 'lemma_jan1'],
 note=_N + 'Dates made from or to time_t (gmtime, mktime of the C library) are not covered.')

prop('C15', 'Dates written to text are read back; any text gives a valid date',
 'A date (valid, year 1000 to 999,999, zone within 99 hours and 59 minutes) is written in the RFC 5322 form with the right day of the week and reads back as exactly the same date, whatever the object held before. More generally a text of the RFC 5322 grammar, with optional day name, seconds, obsolete two- and three-digit years, zone names and any amount of white space, gives the date it denotes. Any other text gives some valid date, without exception, overflow or access outside the text, and can be written again.',
 'every date in the range; every text', 'The tests parse some thirty texts and generate a dozen dates.',
 ['src/vmime/dateTime.cpp', 'src/vmime/utility/datetimeUtils.cpp'],
 [('writing', 'dateTime.cpp datetime::generateImpl'), ('reading', 'dateTime.cpp datetime::parseImpl')],
 units=['dttext'], harness='dt', budget=6, theorems=['property_roundtrip', 'lemma_gen'],
 note=_N + 'The texts under the theorem are those of predicate date_is in contracts/dttext.vc (comments in parentheses, month and day names written in full are not in it: replayed only). The year of the clock is assumed to be between 1 and 999,999. std::ostringstream formatting is an assumed contract.')

prop('C08', 'Stream adapters deliver exactly their range; stream copies are exact',
 'For every text, every sub-range of it and every sequence of reads, skips, seeks and resets, the string, byte-buffer and region input adapters deliver exactly the bytes of their range, never more than asked for and never past the range, and position and end of stream are right at every step; the string and byte-array output adapters append exactly what is written. Copying a stream, whole or a range (start, length), writes exactly those bytes and says how many, whatever its reads and skips return, and progress ends at the number of bytes copied.',
 'every text, sub-range, operation sequence, buffer size and division into reads', 'Tests run a handful of fixed streams; a sub-range adapter was never read.',
 ['src/vmime/utility/inputStreamStringAdapter.cpp', 'src/vmime/utility/inputStreamByteBufferAdapter.cpp', 'src/vmime/utility/seekableInputStreamRegionAdapter.cpp', 'src/vmime/utility/streamUtils.cpp', 'src/vmime/utility/outputStreamStringAdapter.cpp', 'src/vmime/utility/outputStreamByteArrayAdapter.cpp'],
 [('input adapters', 'read, skip, seek, reset, getPosition, eof'), ('output adapters', 'writeImpl'), ('copies', 'bufferedStreamCopy, bufferedStreamCopyRange')],
 units=['adapt'], harness='adapt', budget=10,
 note=_N + 'Counts and positions are below 2^60. Adapters of std::istream and std::ostream and the socket adapter are not under contract.')
prop('C32', 'A message sent in BDAT chunks reaches the server exactly',
 'For every sequence of writes and every division of the replies, the BDAT commands sent announce exactly the bytes that follow them, the concatenation of the chunks is exactly what was written, exactly the last chunk carries LAST, without PIPELINING the reply to each chunk is read before the next is sent, with it all are read at the end, no reply is left unread or waited for in vain, and sending succeeds only if every chunk was answered with 250.',
 'every message size, division into writes, buffer fill, extension set and reply sequence', 'The tests send one message of fixed chunks to a server that always accepts.',
 ['src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp', 'src/vmime/net/smtp/SMTPConnection.cpp', 'src/vmime/net/smtp/SMTPCommand.cpp'],
 [('chunking', 'SMTPChunkingOutputStreamAdapter sendChunk, writeImpl, flush'), ('requests', 'SMTPConnection::sendRequest, readResponse; SMTPCommand::BDAT, createCommand, writeToSocket')],
 over=('inputs', 'histories'), units=['bdat'], harness='net', budget=12,
 note=_N + 'flush() is called once, after the last write (a usage precondition). The sockets, tracer and progress listener are assumed contracts; the reply to read is the next of the connection (its parsing is C33). PIPELINING is a fixed property of the connection.')
prop('C33', 'SMTP replies are read the same however the bytes arrive',
 'For every stream of server replies and every way its bytes are cut into receives, reading a reply consumes exactly its lines (LF or CRLF, up to the first line that is not continued) and leaves the rest for the next one (kept in the state), so pipelined replies are neither lost nor mixed; code, text, per-line texts and enhanced status codes (RFC 3463) are those of these lines, and the code is 0 when the lines disagree.',
 'every byte sequence from the server and every division into receives', 'Tests read a few fixed replies that arrive whole.',
 ['src/vmime/net/smtp/SMTPResponse.cpp', 'src/vmime/utility/stringUtils.cpp'],
 [('lines', 'SMTPResponse::readResponseLine, getNextResponse, readResponse'), ('values', 'extractResponseCode, extractEnhancedCode, getCode, getText, getEnhancedCode, getLineAt, getLastLine'), ('state', 'getCurrentState')],
 over=('inputs', 'schedules'), units=['smtpresp'], harness='net', budget=10, theorems=['property_resp_unique'],
 note=_N + 'Time-out handler, tracer and the socket (delivers the bytes in order, any number at a time) are assumed contracts; the static readResponse, which only builds the object and calls the verified readResponse, is left out. Fewer than 2^60 bytes, 2^32 lines.')
prop('C34', 'POP3 replies and messages are received exactly, however the bytes arrive',
 'For every reply and every way its bytes are cut into receives: a one-line reply is complete exactly at its line end; a multi-line reply or message whose dots were doubled by the server (RFC 1939) is complete exactly at its terminator, never at a dot inside it, and gives back the original lines, respectively the original message bytes after the first line; the status is OK only for a line starting with +OK and an error line ends a multi-line reply.',
 'every reply and message text and every division into receives', 'Tests read a few fixed replies that arrive whole.',
 ['src/vmime/net/pop3/POP3Response.cpp', 'src/vmime/utility/filteredStream.cpp', 'src/vmime/utility/filteredStream.hpp'],
 [('completeness', 'POP3Response::readResponseImpl, checkTerminator, checkOneTerminator'), ('values', 'stripFirstLine, getResponseCode, stripResponseCode'), ('retrieval', 'readLargeResponse over the filters of C07'), ('lists', 'readResponse, readMultilineResponse')],
 over=('inputs', 'schedules'), units=['pop3resp', 'stopseq', 'dotin'], harness='net', budget=10, theorems=['property_single', 'property_multi', 'property_retr', 'property_unstuff'],
 note=_N + 'The server sends nothing beyond the reply before the next command (POP3 has no pipelining here). In readLargeResponse the filter chain is taken by its contracts (what each filter delivers, proved in units stopseq and dotin). Time-out handler, tracer, progress listener and socket are assumed contracts. Fewer than 2^60 bytes.')
prop('C18', 'IMAP folder names and strings reach the server and come back unchanged',
 'For every folder name that is valid UTF-8 and every hierarchy separator that is a printable character other than a letter, digit, "+", ",", "-" or "&", the name sent is printable ASCII, is the modified UTF-7 (RFC 3501, 5.1.3) of exactly that name, never contains the separator, and is read back as the same name; every modified UTF-7 text the server may send for a name is read as that name; a path of non-empty names is written and read back component by component. For every string without NUL, CR and LF, the argument sent (atom or quoted) is one the IMAP grammar reads as exactly that string.',
 'every name, separator, path and string argument', 'Tests convert about ten names and quote about ten strings; names mixing plain, special and encoded characters are not combined.',
 ['src/vmime/net/imap/IMAPUtils.cpp', 'src/vmime/utility/path.cpp'],
 [('names', 'IMAPUtils::toModifiedUTF7, fromModifiedUTF7'), ('paths', 'IMAPUtils::pathToString, stringToPath; path::getSize, operator[], operator/='), ('arguments', 'IMAPUtils::quoteString')],
 units=['mutf7', 'imapq'], harness='imap', budget=12, theorems=['property_mutf7', 'property_path', 'property_quoting'],
 note=_N + 'The charset conversions are assumed contracts: the text of a component in UTF-8 (vmime::word) and charset::convert from UTF-7 to UTF-8 (ICU: the text with the same UTF-16 code units). Known finding: "+-" in a name is read back as "+" (an existing test asks for it), names with it are outside the theorem.')
prop('C20', 'A message set names exactly the messages it was made of',
 'For every list of message numbers (in any order, with duplicates), the set made of it has ascending ranges that do not touch and cover exactly those numbers; a list with 0 or the reserved value, and a range that is none, are refused with std::invalid_argument; an empty list gives the empty set. For every list of UIDs that are numbers up to 4294967294 the same holds of their values; any other list of UIDs gives one range per UID, in order, unchanged. A range is written to IMAP as its number, first:last or first:*, ranges separated by commas; the POP3 and maildir number lists of a set hold, in order, exactly the numbers of its ranges (an open range ends at the message count). A range is added only to a set with ranges of the same kind (numbers or UIDs), otherwise std::invalid_argument; a copied or assigned set has the same ranges and shares nothing with the original.',
 'every list of numbers and UIDs, every set of ranges and message count', 'Tests make about ten sets, none of them with values next to the limits, duplicates of UIDs or an empty list.',
 ['src/vmime/net/messageSet.cpp', 'src/vmime/net/messageSet.hpp', 'src/vmime/net/imap/IMAPUtils.cpp', 'src/vmime/net/pop3/POP3Utils.cpp', 'src/vmime/net/maildir/maildirUtils.cpp'],
 [('sets', 'messageSet::byNumber, byUID, copy, assignment; numberMessageRange, UIDMessageRange'), ('IMAP', 'IMAPUIDMessageSetEnumerator, messageSetToSequenceSet'), ('lists', 'POP3Utils and maildirUtils::messageSetToNumberList, their enumerators')],
 units=['mset', 'msetpop', 'msetmd', 'msetimap'], harness='mset', budget=8, theorems=['property_list'],
 note=_N + 'Ranges are heap objects behind base-class pointers in C++: they are taken as values, virtual calls as a match on the two range classes. std::sort, std::copy and the decimal output of numbers are assumed contracts. UIDs are texts without NUL, not empty; message counts below 2^64-1. typeid and dynamic_cast are taken as the class of the range.')
prop('C11', 'MD5 and SHA-1 digests are exact however the data is cut',
 'For every byte sequence and every way of passing it to a message digest object (pieces of any size, through any overload of update and finalize, on a new or a reset object), the digest is that of RFC 1321 (MD5) respectively RFC 3174 (SHA-1) for the whole sequence, its length is 16 respectively 20 bytes, the data passed in is never read outside its range, and objects do not share state. The hexadecimal form is the lowercase hexadecimal of those bytes.',
 'every message, message length and division into updates', 'Tests hash about ten fixed strings, most of them in one piece and none in threads.',
 ['src/vmime/security/digest/md5/md5MessageDigest.cpp', 'src/vmime/security/digest/sha1/sha1MessageDigest.cpp', 'src/vmime/security/digest/messageDigest.cpp'],
 [('MD5', 'md5MessageDigest update, finalize, transform, transformHelper, init, reset'), ('SHA-1', 'sha1MessageDigest update, finalize, transform, init, reset')],
 over=('inputs', 'histories', 'schedules'), units=['md5', 'sha1'], harness='digest', budget=8, theorems=['property_md5_pieces', 'property_sha1_pieces'],
 note=_N + 'The 32-bit word views of byte blocks (unions, casts of the work area) are taken as little-endian, as on the machine the checks run on. Messages shorter than 2^60 bytes.',
 bounded='md5MessageDigest::getDigest (a cast of the state words to bytes) and messageDigest::getHexDigest are covered by replay only; the threads part of the property is covered by replay, and by the proof that no state but that of the object is used.')
prop('C30', 'A message header is split exactly into its fields',
 'For every text and every range of it, parsing a header finds exactly the fields that are there, in order: each field name is the text before its colon, each value is the text after it up to the end of its last continuation line without the white space at its end, lines that are no fields are skipped (or end the header, in the mode that stops at errors, just after the last field), the header ends after the first line that is empty or blank, and nothing outside the range is read.',
 'every text, every sub-range, both recovery modes', 'The tests parse about thirty headers, all well-formed or with one known defect.',
 ['src/vmime/headerField.cpp', 'src/vmime/header.cpp'],
 [('one field', 'headerField.cpp parseNext'), ('all fields', 'header.cpp header::parseImpl')],
 units=['hdr'], harness='mime', budget=8, theorems=['property_header', 'lemma_header', 'lemma_field'],
 note=_N + 'What a value means (headerFieldFactory and the parser of each value) is an assumed contract: it is given its range and does not change the rest.')

prop('C31', 'A multipart body is split exactly into its parts and reads back as written',
 'For every text, range and boundary, parsing a multipart body gives exactly the parts between the delimiter lines (LF, two dashes, the boundary, then optional dashes, blanks and the line end), with the prologue before the first and the epilogue after the closing one; a delimiter followed by anything else on its line is no delimiter, a missing closing delimiter makes the rest of the range the last part, nothing beyond the range counts; a body of another type has the whole range as contents. This also holds for streams whose reads return less than asked. A body that is written with a boundary that starts no line of its parts or prologue is split into exactly those parts, and new boundaries are legal.',
 'every text, sub-range, boundary (up to 2048 bytes) and every division into reads; every list of parts', 'The tests parse some twenty multipart texts, all from memory and over the whole text.',
 ['src/vmime/body.cpp', 'src/vmime/bodyPart.cpp', 'src/vmime/utility/parserInputStreamAdapter.cpp', 'src/vmime/utility/parserInputStreamAdapter.hpp'],
 [('searching and matching in a stream', 'parserInputStreamAdapter.cpp findNext, matchBytes, skipIf'), ('splitting', 'body.cpp findNextBoundaryPosition, parseImpl'), ('writing', 'body.cpp generateImpl, generateRandomBoundaryString, isValidBoundary; bodyPart.cpp generateImpl')],
 units=['bound', 'bgen'], harness='mime', budget=10, theorems=['property_roundtrip', 'lemma_parts', 'lemma_split', 'lemma_seg', 'lemma_chars'],
 note=_N + 'Ranges are shorter than 2^31 bytes (the part counter is an int). Parsing of the header, of nested parts and of the words of prologue and epilogue, and what parts and texts write, are assumed contracts: the theorems hold whatever they write. When Content-Type has no boundary, the guessed one is only proved to be some text of the body of less than 100 bytes. In parseImpl the catch block of matchBytes is left out; a body is taken to have an owner (m_part not null) when parsed.')

prop('C09', 'Encoded words (RFC 2047) in header text are read and written exactly',
 'For every text and every range of it, reading the words of a header text (word::parseNext, parseMultiple, text::parse) gives, in order: each encoded word as one word with the charset, the language and the decoded octets it names, where white space between encoded words is dropped and Base64 digits left over in one are decoded with the next; everything else as words of plain text, unfolded (a line end and the blanks after it are one space, nothing at the end), with the blanks between an encoded word and text kept. Nothing outside the range is read. Encoding a text cuts it into chunks that are consecutive runs of whole characters and lose nothing, whatever room a line has. A text of one word is read back as it was, several words up to the blanks between them, for every line length, position on the line and convertible charset; a copied word equals the original.',
 'every text, sub-range, charset, line length and position', 'The tests read and write some eighty fixed texts, none of them as part of a longer one.',
 ['src/vmime/word.cpp', 'src/vmime/wordEncoder.cpp', 'src/vmime/charset.cpp', 'src/vmime/text.cpp'],
 [('reading', 'word::parseNext, parseMultiple, parseWithState, parserState; charset constructors'), ('cutting', 'wordEncoder::getNextChunk, getUTF8CharLength')],
 units=['wordp', 'wordg'], harness='word', budget=12, theorems=['property_encoded_words', 'property_plain_text'],
 note=_N + 'What the decoders and encoders of Base64 and Q do are assumed contracts here (their own are C01 and C02), as are charset conversion and the case-insensitive comparison of charset names. Malformed encoded words ("=?" without a proper end) are only proved to give words that make progress inside the range. Fewer than 2^61 bytes.',
 bounded='word::generate (folding, separation of words), text::createFromString and the copy functions of word are covered by replay only.')

prop('C27', 'A TLS server is accepted exactly if its certificate chain is trustworthy',
 'A certificate chain is accepted for a host exactly if it is not empty, every certificate of it is signed (name, signature, right to sign) by the next, all are within their dates now, the last is verified by one of the root certificates or the first is one of the trusted certificates, and the first names the host; otherwise it is refused with the exception of the reason. A TLS connection counts as established only after a completed handshake whose server certificates were accepted for the name of the peer.',
 'every chain, list of roots and trusted certificates, and host name', 'The test suite has no test of certificate verification.',
 ['src/vmime/security/cert/defaultCertificateVerifier.cpp', 'src/vmime/security/cert/certificateChain.cpp', 'src/vmime/security/cert/X509Certificate.cpp', 'src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp', 'src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp'],
 [('chain', 'defaultCertificateVerifier::verify, verifyX509, verifyX509chain; certificateChain'), ('certificate', 'X509Certificate_GnuTLS::checkIssuer, verify, verifyHostName, equals; X509Certificate::checkValidity'), ('connection', 'TLSSocket_GnuTLS::handshake')],
 units=['certv', 'certx', 'certt', 'tlshs'], harness='cert', budget=10,
 note=_N + 'GnuTLS itself (names, signatures, match of host names, fingerprints, the handshake) is trusted: its functions are assumed contracts. All certificates of a chain are X.509; the clock crosses no date of the chain during one verification; certificates are the same if their MD5 fingerprints are. Termination of the handshake is not proved; which certificates GnuTLS reports for the peer is assumed. The OpenSSL variant is not built here and not covered.')

prop('C23', 'Upgrading a mail connection to TLS cannot be subverted from outside',
 'When an SMTP, POP3 or IMAP connection in clear is upgraded with STARTTLS or STLS, nothing received before the TLS handshake is used after it: responses already received, buffered bytes, and announced capabilities or extensions are all dropped. The connection counts as secured only once the handshake has succeeded with the certificate verifier of the service. If the server refuses the upgrade the connection stays in clear and is not called secured; if it fails in any other way the connection is closed. When TLS is required, no authentication is attempted on a connection that is not secured, and the refusal is reported to the caller.',
 'every sequence of server responses before and after the upgrade command, however divided into receives, every outcome of the handshake, every setting of the TLS properties', 'The tests run no TLS at all for these protocols except a few scripted exchanges; injected responses and failed handshakes are not sampled.',
 ['src/vmime/net/smtp/SMTPConnection.cpp', 'src/vmime/net/pop3/POP3Connection.cpp', 'src/vmime/net/imap/IMAPConnection.cpp', 'src/vmime/net/imap/IMAPParser.hpp', 'src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp'],
 [('upgrade', 'SMTPConnection.cpp startTLS, POP3Connection.cpp startTLS, IMAPConnection.cpp startTLS'), ('connection set-up', 'SMTPConnection.cpp connect, POP3Connection.cpp connect, IMAPConnection.cpp connect'), ('handshake', 'TLSSocket_GnuTLS.cpp handshake')],
 over=('inputs', 'histories', 'schedules'), units=['tlssmtp', 'tlspop3', 'tlsimap', 'tlshs'], harness='tls', budget=25,
 note=_N + 'Sending, receiving, authentication, HELO/EHLO and the TLS library are assumed contracts naming what they read and set; a handshake failure is never reported as a refusal (command_error). Connection objects are fresh before connect. What isSecuredConnection() says after a failed connection with implicit TLS is not claimed.')
prop('C25', 'An SMTP transaction succeeds only on the positive reply to each of its commands',
 'Sending a message over SMTP returns normally only if MAIL, every RCPT, DATA and the message itself each got a positive reply, each reply being the one to that very command, and only those commands were sent (with a RSET first when the connection was used before). Whether the server supports pipelining or not, no reply is waited for that is not due. Whatever fails, at whatever point, afterwards the connection is either closed or in step with the server: no reply left unread, the server not expecting message data, so that the next message is judged by its own replies only.',
 'every sequence of replies, failures of the socket at every point, any number of recipients and of messages on one connection, with or without pipelining', 'The tests run two scripted exchanges in which replies are positive; refusals of one recipient among several, failures half way and second transactions are not sampled.',
 ['src/vmime/net/smtp/SMTPTransport.cpp', 'src/vmime/net/smtp/SMTPConnection.cpp', 'src/vmime/net/smtp/SMTPCommandSet.cpp'],
 [('transaction', 'SMTPTransport.cpp sendEnvelope, send, skipPipelinedReplies'), ('pipelined commands', 'SMTPCommandSet.cpp addCommand, writeToSocket'), ('matching replies', 'SMTPConnection.cpp sendRequest, readResponse')],
 over=('inputs', 'histories'), units=['smtptx'], harness='smtp', budget=30,
 note=_N + 'One command is one line. A socket on which sending a command failed is taken as closed. The message data never ends data mode early (C05). The texts of MAIL and RCPT (addresses, sizes, extensions) are abstract, extensions and settings arbitrary. Parsing of replies is C33.',
 bounded='send(message) (the path through BDAT chunks, C32, and the temporary buffer) and the command named in the reported error are covered by replay only.')

prop('C16', 'Folder and file paths are lists of names that compose and compare exactly',
 'A path is a list of names: joining, appending a name, taking the parent, the last name or one name, copying and assigning give exactly the list one expects; comparison, "is parent of" and "is direct parent of" hold exactly for equal lists and proper prefixes (names are equal when they are equivalent in their charsets), and moving a path along with a renamed parent changes exactly its prefix, and nothing when the parent is not its prefix. A path written with a separator of one character and read back with it is the path again when no name contains it or is empty; reading any text gives its pieces between separators, empty ones left out.',
 'every path, name, separator and charset', 'The tests compare some forty fixed paths of at most three names.',
 ['src/vmime/utility/path.cpp', 'src/vmime/utility/path.hpp'],
 [('lists', 'path.cpp operator/=, operator/, getParent, getLastComponent, appendComponent, operator='), ('comparison', 'path.cpp operator==, isDirectParentOf, isParentOf, renameParent'), ('text', 'path.cpp toString, fromString')],
 units=['path'], harness='path', budget=8, theorems=['property_path_text'],
 note=_N + 'Conversion between charsets is an assumed contract (a function of the name and the charset). Separators are not empty.')
prop('C22', 'Folders of a Maildir store are exactly those made, renamed and not destroyed',
 'In a Maildir store of either layout (Courier, KMail), after any creations, renamings and destructions of folders, at any depth and with any legal names, listing gives exactly the folders that exist below a folder (all, or those directly in it), each with its own messages; whether a folder exists and has sub-folders is told truly; renaming a folder moves it and everything below it and nothing else, destroying it removes it and everything below it and nothing else, and folder objects keep naming their folder. The name of a message file gives its identifier and flags exactly, and changing the flags keeps the identifier.',
 'every tree of folders, sequence of operations, folder name, message identifier and set of flags', 'The tests use one fixed tree of six folders per layout, with ASCII names none of which begins with another one, and no message files with unusual names.',
 ['src/vmime/net/maildir/format/courierMaildirFormat.cpp', 'src/vmime/net/maildir/format/kmailMaildirFormat.cpp', 'src/vmime/net/maildir/maildirUtils.cpp', 'src/vmime/net/maildir/maildirFolder.cpp'],
 [('Courier layout', 'courierMaildirFormat.cpp folderPathToFileSystemPath, listDirectories, listFolders, renameFolder, destroyFolder, toModifiedUTF7'), ('KMail layout', 'kmailMaildirFormat.cpp'), ('file names', 'maildirUtils.cpp extractId, extractFlags, buildFilename')],
 over=('inputs', 'histories'), units=['courier', 'mdname'], harness='maildir', budget=25, theorems=['property_courier_listing', 'property_courier_dirs', 'property_courier_rename', 'property_courier_destroy', 'property_maildir_name', 'property_maildir_flags'],
 note=_N + 'The file system is abstract: entries of a directory do not change by themselves during one operation, no symbolic links. Directories of the store that stand for a folder have names as this library makes them. Conversion of names to modified UTF-7 by ICU is an assumed contract (a function without dots and slashes, read back to the name).',
 bounded='The KMail layout, maildirFolder (exists, create, rename, destroy, getAttributes, the paths of folder objects) and the combination of all on one store are covered by replay on a file system in memory only.')
prop('C24', 'Messages of a Maildir folder keep their identity, flags and contents',
 'Setting, adding or removing flags of messages of an open Maildir folder changes exactly the flags of the named messages (in the list, in the message objects and in the names of the files) and neither number, identifier nor text of any; expunging removes exactly the messages marked as deleted, with their files, and numbers the others in their order, message objects included. Messages added or copied are there once, with their text and flags. Counts of messages and of unread ones, the numbers and the identifiers told agree with the files, also after closing and opening again and when another program delivers messages or changes their flags. Numbers of messages that do not exist are refused.',
 'every folder, sequence of operations, list of numbers and set of flags', 'The tests list and copy the messages of one fixed folder; flags are changed in no test, and messages are not expunged.',
 ['src/vmime/net/maildir/maildirFolder.cpp', 'src/vmime/net/maildir/maildirMessage.cpp', 'src/vmime/net/maildir/maildirUtils.cpp'],
 [('flags', 'maildirFolder.cpp setMessageFlags'), ('expunge', 'maildirFolder.cpp expunge'), ('add', 'maildirFolder.cpp addMessage, copyMessageImpl'), ('list', 'maildirFolder.cpp scanFolder, copyMessages, getStatus')],
 over=('inputs', 'histories'), units=['mdfolder', 'mdname'], harness='maildir', budget=25, theorems=['property_expunge', 'property_expunge_files'],
 note=_N + 'The file system is abstract: renaming or removing a file fails only if it is not there or the system refuses; opening one for writing empties it; the directories tmp, new and cur differ; a stream may fail or give less, and that it ends is not proved. generateId gives an identifier that no message and no file has. File names are taken apart as proved in C22, number lists as in C20, the directory of a folder is a function of its path. Identifiers have no colon and no "-2,". What other objects for the same folder hold is not claimed; nor is the "recent" flag.',
 bounded='scanFolder, copyMessages, getStatus and the reading of messages are covered by replay on a file system in memory only.')
