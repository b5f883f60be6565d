"""Content presence and Content-Length (RFC 9110, Sections 6.4, 8.6, 9.3, 10.1.5)."""
NOTES = {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "MISSING_USER_AGENT"}
UNDEFINED = ["GET", "HEAD", "DELETE", "CONNECT", "TRACE"]


def verdict(is_response, no_content, received, has_cl, declared, method, is_head, status, has_ua):
    """the notes due; declared: the Content-Length value or None; status, method may be None"""
    out = []
    if is_response and (is_head or status is not None and status == 304):
        if received > 0 and not no_content:
            out.append("CONTENT_NOT_ALLOWED")
    elif has_cl and not no_content:
        if declared is not None and declared == received:
            out.append("CL_CORRECT")
        else:
            out.append("CL_INCORRECT")
    if not is_response:
        if not has_ua:
            out.append("MISSING_USER_AGENT")
        if received > 0 and not no_content and method is not None and any([method == m for m in UNDEFINED]):
            out.append("REQUEST_CONTENT_NOT_DEFINED")
    return out
