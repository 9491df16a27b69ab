#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the list below."""
import json
import os

T = ('The existing tests run a handful of fixed %s; %s')
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    a = {'files': ['request_parser/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'request_parser/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'request_parser/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


REQ, MP, DSF, UH = 'http/request.py', 'http/multipartparser.py', 'utils/datastructures.py', 'files/uploadhandler.py'

prop('P01', 'The head of a request ends at the first CRLFCRLF and no body byte is lost',
     'HttpRequest.parse_request_header consumes exactly the bytes up to and including the first CRLF CRLF, however the stream delivers them and whatever MAX_HEADER_SIZE (the size of its reads) is; '
     'every byte after it is left on the stream, in order, for the body. A request without that terminator is refused with InvalidHttpRequest.',
     ['inputs', 'histories'], 'all request byte strings, all ways to cut them into chunks, all read sizes >= 1',
     T % ('requests read from memory in one piece', 'a terminator split between two reads, at every offset and read size, is out of their reach.'),
     [REQ, DSF], [('read loop of parse_request_header', REQ + ':HttpRequest.parse_request_header'), ('pushing back what was read too far', DSF + ':LazyStream.unget')])

prop('P02', 'A LazyStream delivers its bytes exactly once and in order',
     'Whatever mix of read(n), read(), iteration and unget is used on a LazyStream, the bytes delivered and the bytes still to come always concatenate to the bytes put back and the bytes of its producer, in order; '
     'read(n) returns exactly min(n, available) bytes, read() everything (up to a length given at construction), and tell() counts the bytes delivered less those put back. '
     'unget refuses with SuspiciousMultipartForm only when the same number of bytes was put back more than 40 times in the last 50.',
     ['inputs', 'histories'], 'all producers (any chunks), all sequences of operations and sizes',
     T % ('reads', 'the invariant is over every history of reads and push-backs and every chunking.'),
     [DSF], [('leftover buffer', DSF + ':LazyStream.read'), ('push back', DSF + ':LazyStream.unget'), ('next chunk', DSF + ':LazyStream.next'), ('file chunks', DSF + ':ChunkIter.next')],
     [('_leftover', 'bytes delivered next', DSF + ':LazyStream'), ('position', 'bytes delivered', DSF + ':LazyStream')])

prop('P03', 'Every header line becomes exactly one header value',
     'For a head made of a request line and header lines separated by CRLF, the request line is returned as it is and every header line is split at its first colon into a name and a value with the blanks around the value removed. '
     'All the values of a name are kept in the order of their lines, under the name as it is written, and no other header exists; a header line that has no colon makes the head refused with InvalidHttpRequest.',
     ['inputs'], 'all request lines and sequences of header lines (any bytes without CRLF)',
     T % ('heads', 'repeated names, colons in values, blanks, odd bytes and missing colons at any line are not covered.'),
     [REQ], [('header loop', REQ + ':parse_request_headers')])

prop('P04', 'The request line and its URI are split without losing or inventing a character',
     'A request line is accepted only if it consists of exactly three parts separated by single spaces: method, URI and protocol (anything else raises InvalidHttpRequest). '
     'The URI is split as urllib\'s urlparse does: scheme (before the first colon, lower-cased, if its characters are legal), authority (after // up to the first / ? or #), path, ;params of the last path segment (for the schemes that have them), query (after the first ?) and fragment (after the first #), which put back together give the URI again.',
     ['inputs'], 'all request lines',
     T % ('request lines', 'the delimiters occur in every order and number; results for one URI must not depend on earlier URIs (the parser has a cache in the original library).'),
     [REQ, 'utils/http.py'], [('three tokens', REQ + ':parse_request_line'), ('URI split', 'utils/http.py:_urlsplit'), ('params', 'utils/http.py:_urlparse')])

prop('P05', 'Only a valid host is accepted, and host and port are split exactly',
     'A host string is split, lower-cased, into a domain (with one trailing dot removed; brackets of an IPv6 literal kept) and the digits of an optional port; '
     'anything that is not letters, digits, dots, hyphens or a bracketed IPv6 literal, with an optional colon and port, gives an empty domain and an empty port. '
     'The host and port of a request come from this split of the URI\'s authority or else of the Host header; without a port it is 80 for http, 443 for https and 65536 otherwise.',
     ['inputs'], 'all host strings',
     T % ('host names', 'the property is about every string, including ones ending in a newline, with several colons or unusual characters.'),
     [REQ], [('split_domain_port', REQ + ':split_domain_port'), ('host selection', REQ + ':HttpRequest.parse_request_header')])

prop('P06', 'A multipart body is split exactly at its boundaries, whatever the chunking',
     'The parts of a body are exactly the byte sequences between the occurrences of the separator, found from left to right; a part that is followed by a separator loses only the line break (one LF, then one CR) before it, and what follows the last separator is delivered as it is. '
     'This holds for every way the stream cuts the body into chunks, every separator and every way of reading a part to its end (iterating, read() or pieces).',
     ['inputs', 'histories'], 'all bodies and separators, all chunkings, all ways of reading the parts',
     T % ('multipart bodies', 'a separator that straddles two chunks at each offset, near-separators and runs of CR and LF are not covered.'),
     [MP, DSF], [('boundary search with roll-back', MP + ':BoundaryIter.next'), ('boundary position', MP + ':BoundaryIter._find_boundary'), ('one part at a time', MP + ':InterBoundaryIter.next')])

prop('P07', 'Every named multipart part arrives exactly once, intact, as field or file',
     'For a well-formed multipart/form-data body, POST holds exactly the named fields and FILES exactly the named files that have a file name, under their names, in the order of the body, with their exact content, content type and charset; parts without a name or headers are skipped without affecting the others. '
     'A file is any part whose Content-Disposition has a file name; the result does not depend on how the body is cut into chunks.',
     ['inputs', 'histories'], 'all part sequences, payloads, header spellings and chunkings (header block below 1000 bytes)',
     T % ('bodies', 'payloads containing near-boundaries, CR and LF, empty payloads, repeated and missing names in any combination are not covered.'),
     [MP, DSF], [('part loop', MP + ':MultiPartParser.parse'), ('part header', MP + ':parse_boundary_stream'), ('completion', MP + ':MultiPartParser.handle_file_complete')])

prop('P08', 'The configured limits on fields and body size are enforced exactly',
     'A request with more fields than DATA_UPLOAD_MAX_NUMBER_FIELDS (url-encoded body, query string, or multipart fields; files do not count) is refused with TooManyFieldsSent and one with at most that many is not. '
     'A body larger than DATA_UPLOAD_MAX_MEMORY_SIZE, or multipart fields whose data and names (two bytes more for each field) are together, is refused with RequestDataTooBig and a smaller one is not. '
     'None means no limit (for url-encoded data so does a limit of 0 fields).',
     ['inputs', 'configurations'], 'all bodies and all values of the two settings',
     T % ('bodies far from the limits', 'the limit is about each size, count, chunking and setting, also exactly at the limit and with None.'),
     [REQ, MP, 'utils/http.py'], [('field limit', 'utils/http.py:limited_parse_qsl'), ('multipart limits', MP + ':MultiPartParser.parse'), ('body size', REQ + ':HttpRequest.body')])

prop('P09', 'body() is the exact body, and a failing stream never passes for a shorter one',
     'body() returns all the bytes after the head, however they are delivered, and the same bytes again when called again; read(n) and read() deliver them in order. '
     'An IOError of the stream surfaces as UnreadablePostError with the same arguments, never as a truncated body, and body() after the body was consumed by form parsing raises RawPostDataException.',
     ['inputs', 'histories', 'fault_sequences'], 'all bodies and chunkings, failures of the stream after any chunk, all orders of the calls',
     T % ('bodies from streams that do not fail', 'failures at each point and repeated or mixed reads are not covered.'),
     [REQ, DSF], [('body', REQ + ':HttpRequest.body'), ('read', REQ + ':HttpRequest.read')])

prop('P10', 'Header parameters are parsed exactly: tokens, quoted strings and RFC 2231 values',
     'parse_header splits a header value into its main value (lower-cased) and its parameters: names lower-cased, tokens without surrounding blanks, quoted strings unquoted with \\" and \\\\ unescaped, RFC 2231 values percent-decoded in their charset. '
     'Semicolons and equal signs inside a quoted string never split it, so no parameter appears that was not sent and none is lost.',
     ['inputs'], 'all header values built from a main value and parameters',
     T % ('header values', 'quotes, escapes and semicolons occur in every combination.'),
     [MP], [('parameter splitting', MP + ':_parse_header_params'), ('unquoting', MP + ':parse_header')])

prop('P11', 'Query strings and url-encoded forms decode to exactly the pairs that were sent',
     'A query string or url-encoded body gives exactly the name/value pairs between & or ;, in order, plus signs as blanks and percent escapes decoded in the charset of the request (given charset, Content-Type charset or default), repeated names keeping all their values. '
     'Encoding a QueryDict back with urlencode and parsing it gives the same content.',
     ['inputs', 'configurations'], 'all lists of pairs, encodings of them and charsets',
     T % ('query strings', 'escapes, blank values, repeated names, both separators and several charsets in any combination are not covered.'),
     [REQ, 'utils/http.py'], [('pairs', 'utils/http.py:limited_parse_qsl'), ('QueryDict', REQ + ':QueryDict.__init__'), ('urlencode', REQ + ':QueryDict.urlencode')])

prop('P12', 'MultiValueDict and QueryDict keep for every key exactly the list of its values',
     'After any sequence of operations a MultiValueDict (or mutable QueryDict) holds for each key the list of values these operations define: item assignment replaces the list by one value, setlist replaces it, appendlist and update append, setdefault and setlistdefault only add a missing key, pop, popitem, del and clear remove. '
     'd[key] and the item views give the last value (or an empty list when there is none), getlist a separate copy of all of them, and a missing key raises MultiValueDictKeyError or gives the default.',
     ['histories', 'inputs'], 'all sequences of operations, keys and values',
     T % ('single operations', 'the property is over every history of operations.'),
     [DSF, REQ], [('list of values', DSF + ':MultiValueDict'), ('text keys and values', REQ + ':QueryDict')])

prop('P13', 'Immutable containers cannot be changed by any of their operations',
     'Every mutating operation of an immutable QueryDict, an ImmutableMultiValueDict or an ImmutableList (also by operator or statement) raises AttributeError saying it is immutable and leaves the content as it was. '
     'The query parameters, form data and headers that a parsed request exposes from a query string, form or header block are such containers.',
     ['inputs', 'histories'], 'all mutating operations, arguments and contents',
     T % ('operations', 'every entry point inherited from dict and list must be closed, for all arguments.'),
     [DSF, REQ], [('mutability guard', REQ + ':QueryDict._assert_mutable'), ('immutable dict', DSF + ':ImmutableMultiValueDict'), ('immutable list', DSF + ':ImmutableList')])

prop('P14', 'Copies of multi-value containers are equal, independent and mutable',
     'copy(), copy.copy and copy.deepcopy of a MultiValueDict, ImmutableMultiValueDict or QueryDict give an equal object of the same class whose lists are its own: no change of keys or lists on one side is visible on the other, and for deep copies (and QueryDict.copy) not even one inside a value. '
     'A copy of a QueryDict is mutable and keeps the encoding while the original stays as it was, and pickling a MultiValueDict gives an equal one.',
     ['inputs', 'histories'], 'all contents and all changes after the copy',
     T % ('copies', 'aliasing shows only after later changes, for every content and change.'),
     [DSF, REQ], [('shallow copy', DSF + ':MultiValueDict.__copy__'), ('deep copy', DSF + ':MultiValueDict.__deepcopy__'), ('QueryDict copies', REQ + ':QueryDict.__copy__')])

prop('P15', 'Upload handlers get every byte once, in order, and their signals are obeyed',
     'For each uploaded file the handlers are called with new_file (name, file name, content type, length, charset, extra parameters), then with the data in order, each at its offset, then file_complete with the total size; what a handler returns from receive_data_chunk is what the next one gets, None ends it, the first file returned becomes the uploaded file, and the memory and temporary handlers return exactly the content and metadata they were given. '
     'SkipFile drops just that file, StopFutureHandlers keeps later handlers from this file\'s new_file, StopUpload ends the upload and keeps what was complete; upload_complete is called once at the end.',
     ['inputs', 'histories'], 'all files, chunkings and chains of handlers with signals at any point',
     T % ('uploads with one handler', 'chains, signals at each call and offsets across chunks are not covered.'),
     [MP, UH], [('handler loop', MP + ':MultiPartParser.parse'), ('memory', UH + ':MemoryFileUploadHandler'), ('temporary', UH + ':TemporaryFileUploadHandler')])

prop('P16', 'The convenient upload handler never holds more than its limit in memory',
     'ConvenientFileUploadHandler keeps files in memory only while the total size of all data received is at most FILE_UPLOAD_MAX_MEMORY_SIZE; from the chunk that exceeds it on, this and all later files are temporary files on disk. '
     'Switching loses and repeats nothing: every file has its exact content, size and metadata.',
     ['inputs', 'histories', 'configurations'], 'all sequences of files and chunks and all limits',
     T % ('uploads far from the limit', 'the switch can happen at any chunk of any file.'),
     [UH], [('accounting and switch', UH + ':ConvenientFileUploadHandler.receive_data_chunk')])

prop('P17', 'An uploaded file name has no path and at most 255 characters',
     'The name of an uploaded file contains no path: it is what follows the last slash (for uploads: or backslash, after HTML entities are decoded), cut to at most 255 characters keeping the extension (of a long name, at most its first 255 characters). '
     'A temporary file lies in the configured upload directory and ends in .upload and the extension of the name.',
     ['inputs'], 'all file names',
     T % ('file names', 'separators, entities for them, dots and lengths in any combination are not covered.'),
     ['files/uploadedfile.py', MP, 'utils/text.py'], [('base name and length', 'files/uploadedfile.py:UploadedFile._set_name'), ('client paths', MP + ':MultiPartParser.IE_sanitize')])

prop('P18', 'A safe redirect target stays on an allowed host with an allowed scheme',
     'is_safe_url accepts a target only if, read both with backslashes as they are and as slashes, it does not begin with three slashes or a control character, names a host only together with or without a scheme but no scheme without a host, its host is none or one of the allowed ones, and its scheme is none, http or https (only https if required). '
     'is_same_domain accepts exactly the pattern itself (case of the pattern ignored) or, for a pattern with a leading dot, the bare domain and its subdomains; escape_leading_slashes never returns a URL beginning with //.',
     ['inputs'], 'all targets, sets of hosts and domain patterns',
     T % ('inputs', 'it is a security filter: one accepted string out of all of them breaks it.'),
     ['utils/http.py'], [('both readings', 'utils/http.py:is_safe_url'), ('one reading', 'utils/http.py:_is_safe_url'), ('domains', 'utils/http.py:is_same_domain'), ('slashes', 'utils/http.py:escape_leading_slashes')])

prop('P19', 'Base 36 conversion is exact in both directions',
     'int_to_base36 gives for every non-negative integer its base 36 digits (0-9a-z) without leading zeros and refuses negative ones with ValueError; base36_to_int gives their value for every string of 1 to 13 base 36 digits (either case). '
     'A longer string, an empty one or one with any other character (blanks around and a sign aside, which int accepts) raises ValueError.',
     ['inputs'], 'all integers and strings',
     T % ('numbers', 'it is a bijection over an unbounded set.'),
     ['utils/http.py'], [('to digits', 'utils/http.py:int_to_base36'), ('from digits', 'utils/http.py:base36_to_int')])

prop('P20', 'URL-safe base64 round-trips every byte string',
     'urlsafe_base64_encode gives the base64 of any bytes with - and _ and without padding or line breaks, and urlsafe_base64_decode of it (bytes or text, with or without padding) gives the same bytes back. '
     'Text whose length cannot be base64 raises ValueError.',
     ['inputs'], 'all byte strings',
     T % ('values', 'every length modulo 3 and every byte value matters.'),
     ['utils/http.py'], [('encode', 'utils/http.py:urlsafe_base64_encode'), ('decode', 'utils/http.py:urlsafe_base64_decode')])

prop('P21', 'HTTP dates are parsed and written exactly',
     'parse_http_date accepts the three HTTP date formats (RFC 1123, RFC 850, asctime) and gives the seconds since 1970 of that instant (years below 100: 0-69 are 2000-2069, 70-99 are 1970-1999); anything else, or an impossible date, raises ValueError, and parse_http_date_safe gives None. '
     'http_date writes the RFC 1123 form that parses back to the same second.',
     ['inputs'], 'all strings and all instants from year 100 to 9999',
     T % ('dates', 'leap days, month ends, year windows and malformed dates are a large space.'),
     ['utils/http.py'], [('three formats', 'utils/http.py:parse_http_date'), ('safe variant', 'utils/http.py:parse_http_date_safe'), ('writing', 'utils/http.py:http_date')])

prop('P22', 'ETag lists are split into exactly their well-formed elements',
     'parse_etags gives [*] for a lone asterisk and otherwise, in order, exactly the comma-separated elements that (without blanks around them) are a quoted string without quotes inside, optionally with W/ in front. '
     'quote_etag leaves such an element as it is and puts anything else in quotes.',
     ['inputs'], 'all strings',
     T % ('etags', 'malformed elements between well-formed ones are not covered.'),
     ['utils/http.py'], [('list', 'utils/http.py:parse_etags'), ('one', 'utils/http.py:quote_etag')])

prop('P23', 'Chunks and lines of a file reproduce its content exactly',
     'chunks(n) of a file gives, from its beginning, pieces of exactly n bytes (the last one of 1 to n) that concatenate to the content; a file in memory gives it in one piece. '
     'Iterating gives its lines, each with its own line end (LF, CR or CRLF), also when a chunk ends inside a line or between CR and LF, and concatenated they are the content.',
     ['inputs'], 'all contents, chunk sizes and positions before the call',
     T % ('files', 'line ends at every chunk boundary are not covered.'),
     ['files/base.py', 'files/uploadedfile.py'], [('chunks', 'files/base.py:File.chunks'), ('lines', 'files/base.py:File.__iter__')])

prop('P24', 'A request is parsed once, again only for new data, and keeps no old state',
     'The header is parsed once and the body once, the body only after the header (RequestHeaderParseException otherwise), and parsing again changes nothing; assigning a new stream resets all header and body information so that the object then gives what a fresh request for the new bytes gives, and a new body stream resets only the body. '
     'One request never changes the settings it shares with others, and changing the encoding decodes the query parameters anew.',
     ['histories', 'inputs'], 'all sequences of parsing, assigning streams and encodings, and other requests with the same settings',
     T % ('single requests', 'state left over from an earlier request shows only in histories.'),
     [REQ], [('flags', REQ + ':HttpRequest.parse_request_header'), ('reset', REQ + ':HttpRequest._reset_header_meta_data'), ('body stream', REQ + ':HttpRequest.body_stream')])

prop('P25', 'Settings take exactly the given values, and each object its own',
     'Settings(dict) takes every given key with exactly the given value and the documented default for all others, without changing the dictionary, the defaults or any other Settings object. '
     'An upload directory that exists (or can be created with one mkdir) is used; anything else raises InvalidDirectory.',
     ['configurations', 'histories'], 'all dictionaries of settings and orders of making them',
     T % ('settings', 'every subset of keys and falsy values like 0 or None matters.'),
     ['conf/settings.py'], [('values', 'conf/settings.py:Settings.__init__')])

prop('P26', 'The path and URI of a request are rebuilt with exact, stable escaping',
     'get_full_path gives the path with every byte outside the path characters percent-escaped (existing escapes kept), a slash appended only if asked for and missing, and then ? and the query escaped the same way if there is one; get_uri puts scheme and host in front. '
     'The result contains only printable ASCII and, parsed again, gives the same URI; set_path, escape_uri_path and iri_to_uri escape any text the same way.',
     ['inputs', 'histories'], 'all paths and queries (ports and ;params aside), all scheme and host forms',
     T % ('paths', 'each byte value and double escaping are not covered.'),
     [REQ, 'utils/encoding.py'], [('full path', REQ + ':HttpRequest._get_full_path'), ('URI', REQ + ':HttpRequest.get_uri'), ('escaping', 'utils/encoding.py:escape_uri_path')])

prop('P27', 'base64 parts are decoded exactly, whatever their line breaks and the chunking',
     'The content of a multipart part sent with Content-Transfer-Encoding base64 is exactly what was encoded, wherever blanks and line breaks are inserted and however the stream is cut into chunks. '
     'A file part whose base64 is cut off raises MultiPartParserError rather than yielding partial content or waiting for ever, and a field that is not base64 is kept as it is; the parts after it are not affected.',
     ['inputs', 'histories'], 'all contents, line widths, blanks, chunk sizes and truncations',
     T % ('bodies', 'groups of four split by blanks and chunk ends at each offset are not covered.'),
     [MP], [('decoding of chunks', MP + ':MultiPartParser.parse')])

prop('P28', 'urlencode and the quoting helpers encode every value exactly',
     'urlencode gives name=value pairs in order for a mapping, MultiValueDict or list of pairs, quoting names and values so that decoding gives them back; with doseq each element of an iterable value is a pair of its own, and None raises TypeError. '
     'urlquote, urlquote_plus, urlunquote and urlunquote_plus are inverse to each other on any text.',
     ['inputs'], 'all mappings and values of text, bytes, numbers and sequences',
     T % ('values', 'value types, reserved characters and doseq in any combination are not covered.'),
     ['utils/http.py'], [('pairs', 'utils/http.py:urlencode'), ('quoting', 'utils/http.py:urlquote')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['title'], len(p['title']))
            f.write(json.dumps(p) + '\n')
