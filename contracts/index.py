"""Which contracts and which oracle decide each property."""

MODULES = ['streams', 'httputil', 'multidict', 'request', 'head', 'params', 'multipart']

COMMON_ASSUMPTIONS = [
    'Python integers and strings are mathematical integers and sequences of code points (true of Jython up to memory)',
    'single-threaded use of one request/stream/dictionary object',
    'termination is not proved (partial correctness); the bounded runs have a 30 s watchdog per case',
]

PROPS = {
    'P01': {
        'level': 'proof', 'contracts': ['HttpRequest.parse_request_header'],
        'note': 'Loop invariant over the reads: what was read has no CRLF CRLF or is the head, what was read too much and the rest are the body. '
                'Proved for every stream, chunking and size of reads, also when parsing the head fails later.',
        'assumptions': ['the producer of a stream yields byte strings, keeps raising StopIteration at its end, and fails only with IOError',
                        'MAX_HEADER_SIZE is positive'],
    },
    'P03': {
        'level': 'proof', 'contracts': ['parse_request_headers'],
        'note': 'For an arbitrary header name: the values of the lines of that name, in order (recursive specification over the lines, loop invariant), '
                'for all heads.',
        'bounded': 'that the parsed request exposes these headers.', 'assumptions': ['keys of a dictionary compare as values'],
    },
    'P05': {
        'level': 'proof', 'contracts': ['split_domain_port', 'HttpRequest.parse_request_header: host and port'],
        'note': 'The split is proved for all texts against the language of hosts; where host and port of a request come from over the contracts of the '
                'functions that split the head.',
        'assumptions': ['MAX_HEADER_SIZE is positive'],
    },
    'P02': {
        'level': 'proof', 'contracts': ['LazyStream.next', 'LazyStream.unget', 'LazyStream._update_unget_history', 'LazyStream.read',
                                        'LazyStream.tell', 'LazyStream.__iter__', 'LazyStream.__init__', 'ChunkIter.next'],
        'note': 'Every LazyStream operation is proved against rest = leftover ++ producer bytes; ChunkIter.next against its file.',
        'assumptions': ['the producer of a stream yields byte strings and keeps raising StopIteration at its end'],
    },
    'P04': {
        'level': 'exploration', 'contracts': ['_splitnetloc', '_urlsplit', 'lemma URL parts', '_urlparse', 'parse_request_line',
                                              'HttpRequest.parse_request_header: request line'],
        'note': 'parse_request_line and the URI split (_splitnetloc, _urlsplit, _urlparse) are proved for all lines and URIs, and that method, scheme, path '
                'and protocol of a request are those of its line.',
        'bounded': 'the parts that put back together give the URI.',
    },
    'P08': {
        'level': 'exploration', 'contracts': [],
        'note': 'bounded oracle on the real code; the field limit of limited_parse_qsl is proved with P11',
    },
    'P09': {
        'level': 'exploration', 'contracts': ['HttpRequest.body', 'HttpRequest.body again', 'HttpRequest.read'],
        'note': 'body() (loop invariant over the chunks it reads) and read() are proved against rest(stream), also for a stream that fails with an IOError; '
                'body() after a form was parsed, after a failure and after a change of encoding too.',
        'bounded': 'failures while the head or a form is parsed.',
        'assumptions': ['the producer of a stream yields byte strings, keeps raising StopIteration at its end, and fails only with IOError'],
    },
    'P11': {
        'level': 'exploration', 'contracts': ['limited_parse_qsl', 'QueryDict.__init__'],
        'note': 'The splitting into pairs, their decoding and the limit on their number are proved for all strings (loop invariant over the pairs), and that '
                'a QueryDict made from a query has for an arbitrary name exactly the values of its pairs, decoded in the charset given or the default.',
        'bounded': 'where the charset of a request comes from; urlencode.',
        'assumptions': ['library: urllib unquote (percent decoding of one piece)', 'charsets are known to the codec registry'],
    },
    'P06': {
        'level': 'proof', 'contracts': ['BoundaryIter._find_boundary', 'BoundaryIter.next', 'BoundaryIter.__init__', 'InterBoundaryIter.next'],
        'note': 'For every stream, chunking and separator: what an iterator over a part returns and what it will still return are exactly the part, what '
                'follows it stays on the stream, and each part begins where the one before it ended. With the contracts of LazyStream (P02), whose '
                'producer such an iterator is, that gives the parts for every way of reading them. The facts about the first place of a word in a '
                'concatenation that the solvers lack are proved in Lean (lemmas/strings.lean).',
        'bounded': 'the composition of iterators and streams as a whole.',
        'assumptions': ['the separator is not empty and begins with neither CR nor LF (multipart separators begin with --)',
                        'the producer of the body stream yields no empty chunk before its end (ChunkIter and the streams of this library do not)'],
    },
    'P10': {
        'level': 'proof', 'contracts': ['_parse_header_params', 'parse_header'],
        'note': 'For all header values: the pieces end at the semicolons outside of quotes (an odd number of unescaped quotes before it is inside), and for '
                'an arbitrary name the parameter is the last piece of that name, decoded (RFC 2231), unquoted or as it is; loop invariants over text and pieces.',
        'bounded': 'that escaping and unescaping, percent-encoding and -decoding are inverse (whole header values).',
        'assumptions': ['library: re.sub of escaped characters and str.count are functions of the text; urllib\'s unquote is a function of text and charset '
                        '(an unknown charset raises LookupError)', 'a text has one field more than separators (str.split, str.count)'],
    },
    'P12': {
        'level': 'proof', 'contracts': ['MultiValueDict.' + _m for _m in (
            '__getitem__ get _getlist getlist __setitem__ setlist setdefault setlistdefault appendlist __delitem__ pop popitem clear __contains__ '
            'items values lists update'.split())] + ['MultiValueDict.pop with default'] + ['QueryDict.' + _m for _m in (
                '__getitem__ get getlist __contains__ __setitem__ setlist appendlist setdefault setlistdefault __delitem__ pop popitem clear update'.split())] + [
            'QueryDict.pop with default'],
        'note': 'Every operation of MultiValueDict and of a mutable QueryDict is proved against the map from keys to lists, for an arbitrary key; '
                'what a sequence of operations does follows.',
        'bounded': 'dict() and the constructor; update from something that is not a dictionary.',
        'assumptions': ['keys hash and compare as values; the values of a QueryDict are text', 'library: dict as a map from keys to values'],
    },
    'P13': {
        'level': 'proof', 'contracts': ['%s.%s refused' % (_c, _m) for _c in ('ImmutableMultiValueDict', 'QueryDict') for _m in (
            '__setitem__ __delitem__ setlist setdefault setlistdefault appendlist update pop popitem clear'.split())] + ['ImmutableList refused'],
        'note': 'Every mutating operation is looked up on the object as a caller would and proved to raise and to change nothing.',
        'bounded': 'that a parsed request exposes such containers.',
        'assumptions': ['library: dict and tuple have no further mutating methods than those listed'],
    },
    'P14': {
        'level': 'exploration', 'contracts': ['%s of %s' % (_h, _c) for _c in ('MultiValueDict', 'ImmutableMultiValueDict', 'QueryDict')
                                              for _h in ('copy.copy', 'copy.deepcopy', 'copy')],
        'note': 'The nine ways of copying are proved: same class and keys, lists of its own with the same content, original unchanged.',
        'bounded': 'pickling; the values inside a deep copy.',
        'assumptions': ['library: copy.deepcopy of a value as a function of it, of a text or number the same; keys are text'],
    },
    'P18': {
        'level': 'proof', 'contracts': ['_is_safe_url', 'is_safe_url', 'is_same_domain', 'escape_leading_slashes'],
        'note': 'The four functions are proved for all strings and sets of hosts against the parts of the URL as _urlparse gives them (proved with P04).',
        'assumptions': ['library: unicodedata.category of a character as a function of it'],
    },
    'P19': {
        'level': 'proof', 'contracts': ['int_to_base36', 'base36_to_int', 'lemma base 36 round trip'],
        'note': 'Digits by loop invariant for all integers; the value by int(s, 36).',
        'assumptions': ['int(s, 36) of a string of digits is their value'],
    },
    'P20': {
        'level': 'proof', 'contracts': ['urlsafe_base64_encode', 'urlsafe_base64_decode', 'urlsafe_base64_decode: only ValueError'],
        'note': 'Proved for all byte strings over the library functions.',
        'assumptions': ['base64.urlsafe_b64encode(x) is the core of x followed by (-len(core)) mod 4 equal signs and urlsafe_b64decode its inverse'],
    },
    'P21': {
        'level': 'proof', 'contracts': ['parse_http_date', 'parse_http_date_safe', 'http_date'],
        'note': 'For all strings: the three formats as regular languages, the fields by their places, the calendar by the library.',
        'assumptions': ['library: datetime validates a date, timegm(utctimetuple) gives its seconds, email.utils.formatdate writes the RFC 1123 form',
                        'case folding of the month name is Python\'s lower()'],
    },
    'P22': {
        'level': 'proof', 'contracts': ['parse_etags', 'quote_etag'],
        'note': 'Proved for all strings (loop invariant over the elements).', 'assumptions': [],
    },
    'P24': {
        'level': 'exploration', 'contracts': ['HttpRequest.stream =', 'HttpRequest.body_stream =', 'HttpRequest.stream', 'HttpRequest.body_stream',
                                              'HttpRequest.parse_request_header again', 'HttpRequest.parse_request_body again',
                                              'HttpRequest.parse_request_body before the header', 'HttpRequest.encoding', 'HttpRequest.encoding ='],
        'note': 'What assigning a stream, a body stream or an encoding resets and keeps is proved for every state of a request '
                '(new, header parsed, body read, could not be read, parsed), and that parsing again does nothing.',
        'bounded': 'that the reset request gives what a fresh one gives; that the settings are not changed.',
        'assumptions': ['the limit of fields is not negative'],
    },
    'P26': {
        'level': 'proof', 'contracts': ['escape_uri_path', 'iri_to_uri', 'uri_to_iri', 'lemma escaping is stable', 'HttpRequest.get_full_path', 'HttpRequest.get_uri',
                                        'HttpRequest.set_path'] + ['HttpRequest.' + _m for _m in 'get_path get_scheme get_host get_method is_secure'.split()],
        'note': 'The escaping functions, get_full_path, get_uri and set_path are proved for all paths and queries; that the result is printable ASCII and '
                'escaped again the same is a lemma over the language of quoted strings.',
        'bounded': 'parsing the rebuilt URI as a request again.',
        'assumptions': ['library: urllib.quote escapes every character outside the safe set (a function whose result is in the language of quoted strings, '
                        'and the argument itself when that is in it already)'],
    },
    'P28': {
        'level': 'exploration', 'contracts': ['urlquote', 'urlquote_plus', 'urlunquote', 'urlunquote_plus'],
        'note': 'The quoting helpers are proved to be what the library gives.', 'bounded': 'urlencode and the inverse of quoting.',
        'assumptions': ['library: urllib quote, quote_plus, unquote'],
    },
}

for _i in range(1, 29):
    PROPS.setdefault('P%02d' % _i, {'level': 'exploration', 'contracts': [], 'note': 'bounded oracle on the real code only'})
