import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Linting never raises, whatever is on the wire",
"Feeding any request or response through the public linting steps (start line, headers, content in any chunks, trailers, end of content) never raises an exception and always returns: a malformed value is reported with a note or ignored. This holds for any method, target, status, field names and values, trailers, content bytes and coding, base URI, times, and for a response with or without its request.",
["inputs","configurations"],"every byte string in every position of a message, and every combination of fields, with and without a related request",
"Each parser's tests feed it a few hand-picked values; one odd digit, empty part or unexpected type in any of about 200 fields loses the whole report.",
["httplint/message.py","httplint/field/section.py","httplint/field/__init__.py","httplint/field/list_field.py","httplint/field/singleton_field.py","httplint/field/broken_field.py","httplint/field/structured_field.py","httplint/field/json_field.py","httplint/field/utils.py","httplint/field/parsers","httplint/cache.py","httplint/charset.py","httplint/content_encoding.py"],
[("message entry points","httplint/message.py"),("per-field parse/evaluate/post_check","httplint/field/parsers"),("ValueError discipline","httplint/field/list_field.py, singleton_field.py, broken_field.py")],
["return of process_headers / feed_content / finish_content"])
p("P02","Every emitted note renders in every shipped language",
"The summary and detail of every note and subnote that any message can produce can be rendered, without error and as non-empty summary text, in every language the package ships, with every variable the template names filled in.",
["inputs","configurations"],"all messages, all notes they produce, all shipped translations",
"Tests check which notes are produced, rarely render them, and almost never in another locale or with unusual values.",
["httplint/note.py","httplint/i18n.py","httplint/util.py","httplint/translations","httplint/field/parsers"],
[("summary/detail interpolation","httplint/note.py"),("lazy time and number formatting","httplint/util.py"),("templates and the variables passed to them","every Note class and notes.add call")],
["Note.summary, Note.detail"])
p("P03","Data from the message cannot inject markup into note details",
"The HTML detail of a note contains only markup that comes from the note's own text (or from lists and code spans composed by the library): no tag, attribute, link target or entity in it is controlled by bytes taken from the message. Message data that is shown appears HTML-escaped.",
["inputs","configurations"],"all field names, values, targets, methods and content bytes, in every language",
"Needs adversarial values (backticks, brackets, line breaks, angle brackets) in each variable of each note; the repository tests one pattern per field.",
["httplint/note.py","httplint/util.py","httplint/field/structured_field.py","httplint/field/parsers"],
[("detail rendering","httplint/note.py Note._get_detail"),("pre-composed Markdown","httplint/util.py markdown_list, code_text; field parsers")],
["Note.detail"])
p("P04","Cache storability verdict follows the directives, method and request",
"A response is judged unstorable when Vary has '*', the request method is known and is not GET or HEAD, or no-store is present; otherwise private (or an authenticated request without public, must-revalidate or s-maxage) rules out shared caches, and when neither applies it is storable by all caches if public, max-age, a valid Expires or a heuristically cacheable status (200, 203, 206, 300, 301, 410) is present, by shared caches only with just s-maxage, and by none otherwise. The storability flags and the single storability note that is emitted always agree with this verdict, and header and method comparisons treat field names without regard to case.",
["inputs"],"all combinations of directives, status codes, methods, Vary, Expires, request presence and request fields",
"The decision combines a dozen independent conditions with early exits; example tests visit a handful of the combinations.",
["httplint/cache.py"],[("early-exit pipeline","httplint/cache.py ResponseCacheChecker.__init__"),("basic and storability checks","httplint/cache.py check_basic, check_storable")],
["linter.caching.store_private/store_shared, notes"])
p("P05","Current age and freshness lifetimes are computed by the HTTP rules",
"For a response that caches may store, the reported age is the larger of the apparent age (response time minus a valid positive Date, never negative) and the Age value (0 when absent or invalid) plus the request-to-response delay when both times are known. The freshness lifetime of each cache type is s-maxage for shared caches if present, else max-age, else Expires minus Date (or minus the response time when Date is unusable; an unusable Expires counts as already expired) when the response time is known, else 0; Age and delta values above 2^31 count as 2^31.",
["inputs"],"all ages, dates, expiry dates, delays, directive values and combinations, including zero, negative-looking and huge values",
"Precedence and off-by-one mistakes only show for particular combinations of present, absent and invalid fields and times.",
["httplint/cache.py"],[("age calculation","httplint/cache.py check_age"),("freshness lifetime","httplint/cache.py check_freshness")],
["linter.caching.age, freshness_lifetime_private, freshness_lifetime_shared"])
p("P06","Fresh, stale and revalidation notes agree with the computed age",
"A response with explicit freshness information is reported fresh exactly when its lifetime exceeds its age and stale otherwise (and, when private and shared lifetimes differ, each is labelled correctly); no-cache, heuristic and no-freshness cases get their own note instead, and exactly one of these verdicts is given. Notes about serving stale content (stale-while-revalidate, stale-if-error, must-revalidate, proxy-revalidate or s-maxage, or servable otherwise) follow the directives present and the matching fresh or stale verdict, in that order of precedence.",
["inputs"],"all ages, lifetimes and directive combinations, including equality of age and lifetime",
"The boundary (age equal to lifetime) and the shared/private asymmetry need exact coincidences of several fields and times.",
["httplint/cache.py"],[("freshness verdict","httplint/cache.py check_freshness"),("stale serving","httplint/cache.py check_stale")],["notes"])
p("P07","Content accounting does not depend on how content is chunked",
"However the content is split into chunks, the reported content length is the total number of bytes received, the content hash is the MD5 of exactly those bytes in order, the decoded length and hash describe the decoded bytes, the sample is the first 8192 decoded bytes, and (unless decoding fails or hits its limit) the notes produced are the same as for one single chunk. When content is declared as not supplied, only the length is counted and no content-based note appears.",
["inputs","histories"],"all content byte strings and all ways of splitting them (including empty and one-byte chunks)",
"Tests feed one or two chunks; boundary effects depend on where the split falls relative to the sample limit, the coding's header and its internal buffers.",
["httplint/message.py","httplint/content_encoding.py"],[("feeding","httplint/message.py feed_content, _content_sample_processor"),("decoding pipeline","httplint/content_encoding.py ContentEncodingProcessor")],
["content_length, content_hash, content_sample, decoded.length, decoded.hash, notes"])
p("P08","Content-Length and content presence are judged against what was received",
"When a message may have content and its Content-Length field is present (and content was supplied), exactly one of a 'correct' or an 'incorrect' note is given, according to whether the declared number equals the number of content bytes received; a response to HEAD or with status 304 never gets either, and gets a 'content not allowed' note exactly when content bytes were received (and not declared as not supplied). Likewise a request with supplied content and a method among GET, HEAD, DELETE, CONNECT and TRACE gets exactly one note saying its meaning is undefined, and any request without User-Agent gets exactly one note saying so.",
["inputs"],"all lengths, declared values (including repeated or invalid), methods, status codes and content-supplied modes",
"Depends on the interplay of method, status, HEAD, no-content mode and parsed values; tests sample a few.",
["httplint/message.py","httplint/field/parsers/content_length.py"],[("verdict","httplint/message.py finish_content, can_have_content, post_checks"),("value","httplint/field/parsers/content_length.py")],["notes"])
p("P09","Coded content is decoded exactly, incrementally and within its limit",
"For content coded with gzip or x-gzip, br, or a stack of these, the decoded bytes are exactly those the outermost-last order of codings yields, whatever optional gzip header parts (extra, name, comment, header CRC) are present and wherever chunks split, and an unknown coding is skipped. Input that is not valid is reported with exactly one note and processing of that coding stops; no more than 100 MiB of decoded output of a coding is ever passed on, and exceeding that is reported once.",
["inputs","histories"],"all byte strings, all gzip header layouts, all chunkings, all coding stacks",
"Header parsing is incremental: errors show only when a split falls inside an optional part, and the limit needs very large expansions.",
["httplint/content_encoding.py"],[("gzip header","httplint/content_encoding.py GzipProcessor._read_gzip_header"),("limits and errors","httplint/content_encoding.py GzipProcessor.__call__, BrotliProcessor.__call__"),("stacking","httplint/content_encoding.py _build_pipeline")],
["decoded.length, decoded.hash, content_sample, notes"])
p("P10","Field names map to the right handler in any spelling",
"The handler used for a field depends only on its name without regard to letter case or surrounding whitespace: known fields (with their aliases) use their own handler, deprecated and unnecessary names use the corresponding generic ones, and any other name is treated as unknown, so it yields no field-specific note. All lines of a section whose names are equal in this sense are combined into one handler and one parsed entry under the lowercase name.",
["inputs"],"all field names in all letter cases",
"The set of names is unbounded; tests check one spelling of some names.",
["httplint/field/finder.py","httplint/field/section.py","httplint/field/deprecated.py","httplint/field/unnecessary.py"],[("lookup","httplint/field/finder.py HttpFieldFinder"),("sharing","httplint/field/section.py")],["section.handlers, section.parsed"])
p("P11","A field section records every line, its size and its own findings",
"After processing, the section's text lists every field line in order (names with non-ASCII bytes dropped, values as ASCII or else ISO-8859-1) and its size is the sum of the lengths of all names and values; a line gets a too-large note exactly when its name and value exceed 8192 bytes together (and the line is otherwise accepted), and the section gets one exactly when its size exceeds 32768 bytes. Notes about one line carry that line's position, counted from 0 over all lines, as their subject, including the non-ASCII name and value notes, each given exactly for the lines concerned.",
["inputs"],"all lists of raw field lines of any number and size",
"Position and size accounting go wrong only with rejected lines, repeats, boundary sizes or non-ASCII bytes in combination.",
["httplint/field/section.py"],[("line loop","httplint/field/section.py FieldSection.process")],["section.text, section.size, note subjects"])
p("P12","Repeated lines are combined as their field's kind requires",
"For a list field the values of all its lines are the comma-separated elements of every line, in order, with quoted strings kept whole, empty elements dropped and rejected elements omitted; a field limited to one line uses its first line and gets exactly one repetition note when there are more; a multi-line non-list field parses each line separately, in order. A syntax note is given for an element or line exactly when it does not match the field's grammar and the field reports it, and a Structured Field's lines are joined with commas before being parsed once. (Evaluation may then drop repeated members, as Vary does, or normalise media ranges, as Accept-Query does.)",
["inputs","histories"],"all sequences of lines of a field and all element values",
"Needs several lines, empties, quotes and rejected elements together.",
["httplint/field/list_field.py","httplint/field/singleton_field.py","httplint/field/broken_field.py","httplint/field/structured_field.py","httplint/field/utils.py"],[("list","httplint/field/list_field.py"),("singleton","httplint/field/singleton_field.py"),("multi-line","httplint/field/broken_field.py"),("structured","httplint/field/structured_field.py"),("splitting","httplint/field/utils.py split_list_field")],["section.parsed, notes"])
p("P13","Misplaced, misnamed and deprecated fields are flagged and gated",
"A request-only field in a response, or a response-only field in a request, gets exactly one note per line saying so, is not interpreted any further and has no parsed value; a field whose name is not a valid token gets exactly one note per line saying so and its line is not interpreted. A deprecated field gets exactly one deprecation note per accepted line, and no line gets any of these notes otherwise.",
["inputs"],"all field names, both message directions, headers and trailers",
"Applies to every one of about 200 fields in two directions; tests check a few.",
["httplint/field/__init__.py","httplint/field/section.py","httplint/field/parsers"],[("gate","httplint/field/__init__.py HttpField.pre_check"),("direction flags","httplint/field/__init__.py __init_subclass__ and field classes")],["notes, section.parsed"])
p("P14","HTTP dates are parsed to the right instant or rejected",
"A date field value in one of the three HTTP formats is parsed to the exact number of seconds since the epoch that it denotes (two-digit years 69 to 99 mean 1969 to 1999 and 00 to 68 mean 2000 to 2068), the two obsolete formats get exactly one note, and every other value gets exactly one bad-syntax note and no value. Clock-skew notes for Date compare the value, plus Age, with the time of the response using a 5 second tolerance.",
["inputs"],"all strings; all dates, formats, ages and response times",
"Calendar and century boundaries and near-miss formats are far too many to sample.",
["httplint/field/utils.py","httplint/field/parsers/date.py","httplint/field/parsers/expires.py","httplint/field/parsers/last_modified.py"],[("parser","httplint/field/utils.py parse_http_date"),("skew","httplint/field/parsers/date.py evaluate")],["section.parsed, notes"])
p("P15","Set-Cookie is parsed and judged by the cookie rules",
"Each Set-Cookie line is split into name, value and attributes as RFC 6265 section 5.2 says (case-insensitive attribute names, whitespace trimmed, default path from the base URI, leading dot dropped from Domain, invalid Expires, Max-Age, Domain and SameSite values ignored with a note); a line with neither name nor value yields no cookie. Notes about security (Secure required by SameSite=None, Partitioned and the __Secure- and __Host- prefixes, with the latter's Path and Domain rules), duplicates, sizes (value over 128, name plus value over 4096 characters) and lifetime (over 400 days, once per cookie) appear exactly when their condition holds.",
["inputs"],"all Set-Cookie strings, base URIs and response times, one or many lines",
"Attribute combinations, repeats, odd spacing and case produce an unbounded space.",
["httplint/field/parsers/set_cookie.py"],[("parser","httplint/field/parsers/set_cookie.py loose_parse, _process_cookie_attribute"),("dates","httplint/field/parsers/set_cookie.py loose_date_parse"),("prefixes and cross checks","httplint/field/parsers/set_cookie.py check_prefixes, evaluate")],["section.parsed['set-cookie'], notes"])
p("P16","HSTS policy validity and advice follow its directives",
"Of repeated directives in Strict-Transport-Security the first counts and each further one is noted; the policy is reported valid exactly when it has a usable max-age, no duplicate directive, no value on includeSubDomains or preload, and is not served over plain HTTP with a status other than 301, and invalid otherwise. The advice under that verdict (zero or short max-age below 1536000, subdomains or not, preload suitable only with includeSubDomains and a max-age of at least 1536000, trailing semicolon, bad or missing max-age) matches the parsed directives.",
["inputs"],"all field values, base URIs and status codes",
"Validity is a conjunction over directives in any order, case, spacing and multiplicity.",
["httplint/field/parsers/strict_transport_security.py"],[("parser","httplint/field/parsers/strict_transport_security.py parse"),("verdict","httplint/field/parsers/strict_transport_security.py evaluate")],["section.parsed, notes and subnotes"])
p("P17","Status-code notes match the status and its context",
"For every status code the status-specific notes are exactly those the code calls for given the response's fields and the request when known: for example redirects and 201 without Location, 206 without Content-Range or not asked for, 304 with representation fields or without Date, 405 listing the used method, and 100, 101, 406, 412, 416 and 417 checked against the request fields that would justify them. A status code that is not registered is noted as non-standard exactly once, and one that is not an integer is noted as such.",
["inputs"],"all status codes, all header sets, requests present or absent with any fields",
"About 60 codes times request and response contexts; tests cover few.",
["httplint/status.py","httplint/message.py"],[("dispatch and checks","httplint/status.py StatusChecker"),("start line","httplint/message.py process_response_topline")],["notes"])
p("P18","CORS roles and origin matching are judged consistently",
"A request is treated as a preflight exactly when its method is OPTIONS and it has Origin and Access-Control-Request-Method; incomplete preflight fields get the notes for a wrong method, a missing Origin or a missing method field exactly when each applies, and preflight-only response fields are flagged exactly when the response does not answer a preflight. Access-Control-Allow-Origin is reported as matching, mismatching, wildcard or null by exact comparison with the request's serialised origin, whenever the request has an Origin.",
["inputs"],"all requests, responses, origins with and without ports, and field combinations",
"Needs pairs of messages with related fields.",
["httplint/field/cors.py","httplint/field/parsers/access_control_allow_origin.py","httplint/field/parsers/origin.py"],[("preflight","httplint/field/cors.py check_preflight_request, check_preflight_response"),("origin","httplint/field/cors.py check_access_control_allow_origin")],["notes"])
p("P19","Linting is deterministic and messages do not affect each other",
"The parsed values, lengths and set of notes for a message depend only on that message (and its related message), so linting it again, or after or interleaved with any other messages, gives the same result. Rendering notes in one language changes neither the notes nor how they render in another, and the selected language is restored when its scope ends, even after an error.",
["inputs","histories"],"all pairs and sequences of messages, all interleavings of feeding steps and renderings",
"Leaks through class-level or module-level state show only after particular earlier messages.",
["httplint/message.py","httplint/field/__init__.py","httplint/field/section.py","httplint/note.py","httplint/i18n.py"],[("per-message state","httplint/message.py, httplint/field/*"),("language scope","httplint/i18n.py set_locale")],["notes, parsed values"])
p("P20","Byte ranges and integer-valued fields are read strictly",
"Range and Content-Range values are parsed into their unit, positions and total exactly as written, rejected with a note (and no value) when a part is missing or is not a non-negative decimal integer, and noted as invalid exactly when a range's first position exceeds its last or its last is not below the total; Content-Range is noted as meaningless exactly for statuses other than 206 and 416. Age and Content-Length give their integer or, when it cannot be read (or Age is negative), a note and no value, with a too-large note above 2^31 and 2^63-1 respectively.",
["inputs"],"all field values and status codes",
"Unbounded values; boundary relations between positions and totals.",
["httplint/field/parsers/range.py","httplint/field/parsers/content_range.py","httplint/field/parsers/age.py","httplint/field/parsers/content_length.py"],[("range","httplint/field/parsers/range.py parse"),("content-range","httplint/field/parsers/content_range.py parse"),("integers","httplint/field/parsers/age.py, content_length.py")],["section.parsed, notes"])
p("P21","Character-set verdicts are consistent with the content",
"For a response carrying a full representation, content (judged by its first 8192 decoded bytes, a character cut short by that limit left aside) that cannot be decoded with its effective encoding (UTF-8 for JSON types, else the declared charset of a text type) is noted as undecodable, content that decodes differently under a confidently detected encoding is noted as a mismatch (implicit when no charset was declared), and at most one such note is given. None is given for pure-ASCII or blank content, a charset that is unknown or not a character encoding, no effective encoding, responses to HEAD, or statuses 1xx, 204, 205, 206 and 304.",
["inputs"],"all content samples, types, charsets, statuses and detection results",
"Depends on the interplay of declared, detected and actual encodings.",
["httplint/charset.py"],[("verdict","httplint/charset.py verify_charset, _encodings_compatible, _requires_utf8")],["notes"])
p("P22","Request targets are normalised and judged",
"The target given in a request line is recorded as received and also as a URI with non-ASCII characters percent-encoded (host as IDNA) and any fragment removed; a target that cannot be converted or does not match the URI grammar gets exactly one bad-syntax note, and a too-long note is given exactly when the resulting URI exceeds 8000 characters. A valid ASCII URI without a fragment is kept unchanged.",
["inputs"],"all byte strings used as targets",
"Unbounded inputs with interacting rules for each URI part.",
["httplint/message.py","httplint/util.py","httplint/syntax/rfc3986.py"],[("target","httplint/message.py set_uri"),("conversion","httplint/util.py iri_to_uri")],["iri, uri, notes"])
p("P23","Field grammars accept exactly what their specifications allow",
"The syntax patterns used to judge field values accept exactly the strings generated by the grammar in the cited specification (case-insensitively where it says so), and reject all others. In particular the common rules (tokens, quoted strings, lists, dates, entity tags, media types, qvalues, language tags, URIs and hosts, ranges, cache directives) do so.",
["inputs"],"all strings over bytes, for each grammar rule",
"Tests try a few positive and negative strings per field; a character-class slip or wrong repetition bound is invisible to them.",
["httplint/syntax"],[("patterns","httplint/syntax/*.py")],["syntax notes"])
p("P24","Parameters and media types are parsed and normalised correctly",
"Parameters are read into a map from lowercased names to values with quotes and backslash escapes removed, a name without a value kept without one, the last of repeated names winning with a note; extended (name*) parameters are decoded from UTF-8 percent-encoding (without surrounding quotes, which are noted) only when well formed, and otherwise noted and left out. Media types are lowercased and noted exactly when not of the form type/subtype, when a part has more than 127 characters, or when a part does not follow the registration naming rules.",
["inputs"],"all parameter strings and media types",
"Quoting, escaping, repetition and case interact; tests sample a few.",
["httplint/field/utils.py","httplint/field/parsers/content_type.py","httplint/field/parsers/content_disposition.py"],[("parameters","httplint/field/utils.py parse_params, unquote_string, split_string"),("media types","httplint/field/utils.py parse_media_type, check_media_type")],["section.parsed, notes"])
p("P25","Cache-Control directives are read and cross-checked correctly",
"Each Cache-Control directive is read case-insensitively into its name and value (integers for delta directives, unquoted text for field-name lists), with a note and no entry when a delta value is not an integer, and notes for capitals, unexpected values and values over 2^31 exactly when they apply. Known directives get notes exactly when duplicated, used in the wrong direction, or (in responses, for the first of no-store, no-cache and must-revalidate that conflicts) overridden by another, and pre-check and post-check are judged as a pair.",
["inputs"],"all directive lists in both directions",
"Combinations of about twenty directives with values, case and repetition.",
["httplint/field/parsers/cache_control.py"],[("parse","httplint/field/parsers/cache_control.py parse"),("cross-checks","httplint/field/parsers/cache_control.py evaluate")],["section.parsed['cache-control'], notes"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    if len(q['title'])>80: print(q['id'],len(q['title']))
