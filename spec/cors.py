"""CORS roles and origin matching.  `req(name)` / `res(name)`: the field was parsed."""
PREFLIGHT_ONLY = (("access-control-allow-headers", "Access-Control-Allow-Headers"),
                  ("access-control-allow-methods", "Access-Control-Allow-Methods"),
                  ("access-control-max-age", "Access-Control-Max-Age"))
REQUEST_NOTES = {"CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN",
                 "CORS_PREFLIGHT_REQ_NO_METHOD"}
RESPONSE_NOTES = {"CORS_PREFLIGHT_RESPONSE", "CORS_PREFLIGHT_ONLY", "ACAO_MULTIPLE_VALUES"}
ORIGIN_NOTES = {"CORS_ORIGIN_NULL", "CORS_ORIGIN_STAR", "CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH"}


def is_preflight(method, req):
    return method == "OPTIONS" and req("origin") and req("access-control-request-method")


def request_notes(method, req):
    out = []
    if is_preflight(method, req):
        out.append("CORS_PREFLIGHT_REQUEST")
    if req("access-control-request-method") or req("access-control-request-headers"):
        if method != "OPTIONS":
            out.append("CORS_PREFLIGHT_REQ_METHOD_WRONG")
        if not req("origin"):
            out.append("CORS_PREFLIGHT_REQ_NO_ORIGIN")
        if not req("access-control-request-method"):
            out.append("CORS_PREFLIGHT_REQ_NO_METHOD")
    return out


def response_notes(preflight, res, acao):
    """(notes, names listed); preflight: the response answers one; acao: the text of
    Access-Control-Allow-Origin or None"""
    out, listed = [], []
    if preflight:
        out.append("CORS_PREFLIGHT_RESPONSE")
    else:
        for name, shown in PREFLIGHT_ONLY:
            if res(name):
                listed.append(shown)
        if listed:
            out.append("CORS_PREFLIGHT_ONLY")
    if acao is not None and (" " in acao or "," in acao):
        out.append("ACAO_MULTIPLE_VALUES")
    return out, listed


def serialise(scheme, host, port):
    if port is None:
        return scheme + "://" + host
    return scheme + "://" + host + ":" + str(port)


def origin_note(acao, origin):
    """acao: the value; origin: the request's serialised origin"""
    if acao == "null":
        return "CORS_ORIGIN_NULL"
    if acao == "*":
        return "CORS_ORIGIN_STAR"
    if acao == origin:
        return "CORS_ORIGIN_MATCH"
    return "CORS_ORIGIN_MISMATCH"
