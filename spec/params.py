"""Parameters (RFC 9110 section 5.6.6, RFC 8187) and media types (RFC 9110 section 8.3.1, RFC 6838 section 4.2)."""

STAR = {"PARAM_REPEATS", "PARAM_STAR_BAD", "PARAM_STAR_QUOTED", "PARAM_STAR_ERROR", "PARAM_STAR_NOCHARSET", "PARAM_STAR_CHARSET"}


def step(param, present, nostar, unquote, well_formed, decode):
    """(name, notes, kept, value): what one parameter does, given which names are already there.

    well_formed(text): it consists of attr-chars and percent-encoded octets; decode(text): the UTF-8 text it encodes, or None"""
    name, equals, value = param.partition("=")
    name = name.strip()
    value = value.strip()
    key = name.lower()
    notes = []
    if present(key):
        notes.append("PARAM_REPEATS")
    if not equals:
        return key, notes, True, None
    if not name.endswith("*"):
        return key, notes, True, unquote(value)
    if not_allowed(nostar, key):
        return key, notes + ["PARAM_STAR_BAD"], False, None
    if value[0] == '"' and value[-1] == '"':
        notes.append("PARAM_STAR_QUOTED")
        value = value[1:-1]
    charset, quote1, rest = value.partition("'")
    language, quote2, encoded = rest.partition("'")
    if not quote2 or "'" in encoded:
        return key, notes + ["PARAM_STAR_ERROR"], False, None
    charset = charset.lower()
    if charset == "":
        return key, notes + ["PARAM_STAR_NOCHARSET"], False, None
    if charset != "utf-8":
        return key, notes + ["PARAM_STAR_CHARSET"], False, None
    text = decode(encoded) if well_formed(encoded) else None
    if text is None:
        return key, notes + ["PARAM_STAR_ERROR"], False, None
    return key, notes, True, text


def not_allowed(nostar, key):
    if nostar is True:
        return True
    if not nostar:
        return False
    for n in nostar:
        if key[:-1] == n:  # the name without its asterisk
            return True
    return False


def media_type(text, is_token, is_registrable, bad=None, wildcard=False, check_token=False, limit=127):
    """the notes for a media type (or range)"""
    kind, slash, sub = text.partition("/")
    shape = [bad] if bad else []
    if not slash or not kind or not sub or "/" in sub:
        return shape
    if sub == "*" and kind == "*":
        return [] if wildcard else shape
    if kind == "*":
        return shape
    if sub == "*" and not wildcard:
        return shape
    parts = [kind] if sub == "*" else [kind, sub]
    if check_token:
        for p in parts:
            if not is_token(p):
                return shape
    notes = []
    for p in parts:
        if is_token(p) and len(p) > limit:
            notes.append("MEDIA_TYPE_LONG_NAME")
            break
    for p in parts:
        if is_token(p) and not is_registrable(p):
            notes.append("MEDIA_TYPE_BAD_NAME")
            break
    return notes
