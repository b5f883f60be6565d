"""Status-specific notes.  `f` gives the facts about the response and its request:
f.request (known?), f.method (or None), f.req(name) a request field line is present,
f.continue_expected, f.res(name) a response field was parsed, f.method_allowed (the request's method is
among Allow's values), all as Python truth values."""

REGISTERED = {100, 101, 102, 103, 104, 200, 201, 202, 203, 204, 205, 206, 207, 208, 226,
              300, 301, 302, 303, 304, 305, 306, 307, 308,
              400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418,
              421, 422, 423, 424, 425, 426, 428, 429, 431, 451,
              500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511}
ALWAYS = {103: "STATUS_EARLY_HINTS", 104: "STATUS_UPLOAD_RESUMPTION_SUPPORTED", 208: "STATUS_ALREADY_REPORTED",
          305: "STATUS_DEPRECATED", 306: "STATUS_RESERVED", 400: "STATUS_BAD_REQUEST", 403: "STATUS_FORBIDDEN",
          404: "STATUS_NOT_FOUND", 409: "STATUS_CONFLICT", 410: "STATUS_GONE",
          413: "STATUS_REQUEST_ENTITY_TOO_LARGE", 414: "STATUS_URI_TOO_LONG", 415: "STATUS_UNSUPPORTED_MEDIA_TYPE",
          418: "STATUS_IM_A_TEAPOT", 421: "STATUS_MISDIRECTED_REQUEST", 425: "STATUS_TOO_EARLY",
          428: "STATUS_PRECONDITION_REQUIRED", 429: "STATUS_TOO_MANY_REQUESTS",
          431: "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE", 451: "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS",
          500: "STATUS_INTERNAL_SERVICE_ERROR", 501: "STATUS_NOT_IMPLEMENTED", 502: "STATUS_BAD_GATEWAY",
          503: "STATUS_SERVICE_UNAVAILABLE", 504: "STATUS_GATEWAY_TIMEOUT", 505: "STATUS_VERSION_NOT_SUPPORTED",
          508: "STATUS_LOOP_DETECTED", 511: "STATUS_NETWORK_AUTHENTICATION_REQUIRED"}
NEGOTIATION = ("accept", "accept-charset", "accept-encoding", "accept-language")
PRECONDITION = ("if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "if-range")
METADATA = ("content-type", "content-encoding", "content-language")
SAFE = ("GET", "HEAD", "OPTIONS", "TRACE")
OTHERS = {"STATUS_NONSTANDARD", "UNEXPECTED_CONTINUE", "UPGRADE_NOT_REQUESTED", "CREATED_SAFE_METHOD",
          "CREATED_WITHOUT_LOCATION", "PARTIAL_NOT_REQUESTED", "PARTIAL_WITHOUT_RANGE", "REDIRECT_WITHOUT_LOCATION",
          "NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304", "STATUS_405_METHOD_IN_ALLOW", "STATUS_METHOD_NOT_ALLOWED",
          "STATUS_406_WITHOUT_NEGOTIATION", "STATUS_NOT_ACCEPTABLE", "STATUS_412_WITHOUT_PRECONDITION",
          "STATUS_PRECONDITION_FAILED", "STATUS_416_WITHOUT_RANGE", "STATUS_417_WITHOUT_EXPECT",
          "STATUS_417_WITH_100_CONTINUE", "STATUS_EXPECTATION_FAILED"}
NOTES = set(ALWAYS.values()) | OTHERS


def none_of(f, names):
    for n in names:
        if f.req(n):
            return False
    return True


def status_notes(code, f):
    """the names of the notes for this status code (None when it is no integer)"""
    out = []
    if code is None or code not in REGISTERED:
        return ["STATUS_NONSTANDARD"]
    if code in ALWAYS:
        return [ALWAYS[code]]
    if code == 100:
        if f.request and not f.continue_expected:
            out.append("UNEXPECTED_CONTINUE")
    elif code == 101:
        if f.request and not f.req("upgrade"):
            out.append("UPGRADE_NOT_REQUESTED")
    elif code == 201:
        if f.request and f.method is not None and f.method in SAFE:
            out.append("CREATED_SAFE_METHOD")
        if not f.res("location"):
            out.append("CREATED_WITHOUT_LOCATION")
    elif code == 206:
        if f.request and not f.req("range"):
            out.append("PARTIAL_NOT_REQUESTED")
        if not f.res("content-range"):
            out.append("PARTIAL_WITHOUT_RANGE")
    elif code in (301, 302, 303, 307, 308):
        if not f.res("location"):
            out.append("REDIRECT_WITHOUT_LOCATION")
    elif code == 304:
        if not f.res("date"):
            out.append("NO_DATE_304")
        if f.res("content-type") or f.res("content-encoding") or f.res("content-language"):
            out.append("HEADER_SHOULD_NOT_BE_IN_304")
    elif code == 405:
        if f.request and f.method and f.res("allow") and f.method_allowed:
            out.append("STATUS_405_METHOD_IN_ALLOW")
        else:
            out.append("STATUS_METHOD_NOT_ALLOWED")
    elif code == 406:
        out.append("STATUS_406_WITHOUT_NEGOTIATION" if f.request and none_of(f, NEGOTIATION)
                   else "STATUS_NOT_ACCEPTABLE")
    elif code == 412:
        out.append("STATUS_412_WITHOUT_PRECONDITION" if f.request and none_of(f, PRECONDITION)
                   else "STATUS_PRECONDITION_FAILED")
    elif code == 416:
        if f.request and not f.req("range"):
            out.append("STATUS_416_WITHOUT_RANGE")
    elif code == 417:
        if f.request and not f.req("expect"):
            out.append("STATUS_417_WITHOUT_EXPECT")
        elif f.request and f.continue_expected:
            out.append("STATUS_417_WITH_100_CONTINUE")
        else:
            out.append("STATUS_EXPECTATION_FAILED")
    return out
