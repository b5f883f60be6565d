"""Scenario format: JSON-able description of one complete use of the public
httplint API, and its execution against the real code in /repo.

Byte strings are stored as latin-1 decoded str.
"""
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from httplint import HttpRequestLinter, HttpResponseLinter  # noqa: E402
from httplint.i18n import set_locale  # noqa: E402

LOCALES = ["en"] + sorted(
    d
    for d in os.listdir(os.path.join(REPO, "httplint", "translations"))
    if os.path.isdir(os.path.join(REPO, "httplint", "translations", d))
)


def b(s):
    return s.encode("latin-1")


def hl(lst):
    return [(b(n), b(v)) for n, v in lst]


def build(sc, related=None):
    kw = {}
    if sc.get("start_time") is not None:
        kw["start_time"] = sc["start_time"]
    if sc.get("no_content"):
        kw["no_content"] = True
    if sc["kind"] == "request":
        lint = HttpRequestLinter(**kw)
        if "base_uri" in sc:
            lint.base_uri = sc["base_uri"]
        if sc.get("topline") is not None:
            m, u, v = sc["topline"]
            lint.process_request_topline(b(m), u.encode("latin-1"), b(v))
    else:
        lint = HttpResponseLinter(**kw)
        if "base_uri" in sc:
            lint.base_uri = sc["base_uri"]
        if related is not None:
            lint.request = related
        if sc.get("is_head"):
            lint.is_head_response = True
        if sc.get("topline") is not None:
            v, c, p = sc["topline"]
            lint.process_response_topline(b(v), b(c), None if p is None else b(p))
    return lint


def run(sc):
    """Run a scenario on the real code; returns (linter, request_linter)."""
    rel = None
    if sc.get("request") is not None:
        rel, _ = run(sc["request"])
    lint = build(sc, rel)
    if sc.get("headers") is not None:
        lint.process_headers(hl(sc["headers"]))
    for chunk in sc.get("body", []):
        lint.feed_content(b(chunk))
    if sc.get("finish", True):
        tr = sc.get("trailers")
        lint.finish_content(sc.get("complete", True), hl(tr) if tr is not None else None)
    return lint, rel


def all_notes(lint):
    out = []

    def rec(notes):
        for n in notes:
            out.append(n)
            rec(n.subnotes)

    rec(lint.notes)
    return out


def note_names(lint):
    return [type(n).__name__ for n in lint.notes]


def exc_site(exc):
    """(type, file, function) of the innermost /repo frame."""
    site = ("?", "?", 0)
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = fr.filename
        if fn.startswith(REPO + "/"):
            site = (fn[len(REPO) + 1 :], fr.name, fr.lineno)
    return site
