"""Field names: which handler each one gets (by the name of its class), and in which messages each is defined."""

REQUEST_ONLY = """
    accept accept-encoding accept-language access-control-request-headers access-control-request-method authorization
    available-dictionary cookie expect from host if-match if-modified-since if-none-match if-range if-unmodified-since
    max-forwards origin pragma proxy-authorization range referer soapaction user-agent
""".split()

RESPONSE_ONLY = """
    accept-ch accept-patch accept-post accept-query accept-ranges access-control-allow-credentials
    access-control-allow-headers access-control-allow-methods access-control-allow-origin
    access-control-expose-headers access-control-max-age age allow alt-svc authentication-info
    cache-group-invalidation cache-groups cache-status cdn-cache-control clear-site-data content-location
    content-range content-security-policy content-security-policy-report-only cross-origin-embedder-policy
    cross-origin-embedder-policy-report-only cross-origin-opener-policy cross-origin-opener-policy-report-only
    cross-origin-resource-policy deprecation expires last-modified location nel p3p permissions-policy
    proxy-authenticate proxy-authentication-info proxy-status referrer-policy report-to reporting-endpoints
    retry-after server server-timing set-cookie set-cookie2 speculation-rules strict-transport-security sunset tcn
    use-as-dictionary vary warning www-authenticate x-cache x-cache-lookup x-content-type-options x-frame-options
    x-pad
""".split()

ANY = """
    access-control cache-control connection connectiox content-base content-disposition content-encoding
    content-language content-length content-md5 content-transfer-encoding content-type cteonnt-length date etag
    keep-alive link mime-version te trailer transfer-encoding upgrade via
""".split()

DEPRECATED = """
    accept-ch-lifetime accept-charset c-ext c-man c-opt c-pep c-pep-info content-dpr content-id content-script-type
    content-style-type content-version cookie2 default-style derived-from differential-id digest dnt dpr expect-ct ext
    feature-policy getprofile http2-settings man method-check method-check-expires opt pep pep-info pics-label
    profileobject protocol protocol-info protocol-query protocol-request proxy-features proxy-instruction public
    public-key-pins public-key-pins-report-only referer-root safe security-scheme setprofile uri viewport-width
    want-digest width x-content-security-policy x-download-options x-meta-mssmarttagspreventparsing x-ua-compatible
    x-webkit-csp x-xss-protection
""".split()

DEPRECATED_OWN = """
    access-control content-base content-md5 content-transfer-encoding keep-alive mime-version p3p pragma report-to
    set-cookie2 warning x-pad
""".split()

UNNECESSARY = """
    x-aspnet-version x-aspnetmvc-version x-backend-server x-content-encoded-by x-drupal-cache x-generator
    x-mod-pagespeed x-pingback x-powered-by x-rack-cache x-runtime x-varnish
""".split()

ALIASES = {
    "x-pad-for-netscrape-bug": "x-pad", "xx-pad": "x-pad", "x-browseralignment": "x-pad",
    "nncoection": "connectiox", "cneonction": "connectiox", "yyyyyyyyyy": "connectiox", "xxxxxxxxxx": "connectiox",
    "x_cnection": "connectiox", "_onnection": "connectiox",
}
# RFC 9110 also allows these in requests, or leaves it open; how they are classified is not judged
UNJUDGED = {"content-location", "content-range", "te"}

KNOWN = {n: {"from": "from_field"}.get(n, n.replace("-", "_")) for n in REQUEST_ONLY + RESPONSE_ONLY + ANY}
NAMES = dict(KNOWN, **{a: KNOWN[b] for a, b in ALIASES.items()})
for _n in DEPRECATED:
    NAMES.setdefault(_n, "DeprecatedField")
for _n in UNNECESSARY:
    NAMES.setdefault(_n, "UnnecessaryField")


def of_class(name):
    """the names (lowercase) whose handler is the class of that name"""
    return sorted(n for n, c in NAMES.items() if c == name)


def messages(n):
    """(in requests, in responses)"""
    n = ALIASES.get(n, n)
    return (n not in RESPONSE_ONLY, n not in REQUEST_ONLY)


def deprecated(n):
    n = ALIASES.get(n, n)
    return n in DEPRECATED_OWN or NAMES.get(n) == "DeprecatedField"
