//! Independent table of the statuses the library documents: (code, alternative name, IANA phrase).
pub const TABLE: &[(u16, &str, &str)] = &[
    (100, "Continue", "Continue"),
    (101, "SwitchingProtocols", "Switching Protocols"),
    (102, "Processing", "Processing"),
    (200, "Ok", "OK"),
    (201, "Created", "Created"),
    (202, "Accepted", "Accepted"),
    (203, "NonAuthoritativeInformation", "Non-Authoritative Information"),
    (204, "NoContent", "No Content"),
    (205, "ResetContent", "Reset Content"),
    (206, "PartialContent", "Partial Content"),
    (207, "MultiStatus", "Multi-Status"),
    (208, "AlreadyReported", "Already Reported"),
    (226, "ImUsed", "IM Used"),
    (300, "MultipleChoices", "Multiple Choices"),
    (301, "MovedPermanently", "Moved Permanently"),
    (302, "Found", "Found"),
    (303, "SeeOther", "See Other"),
    (304, "NotModified", "Not Modified"),
    (305, "UseProxy", "Use Proxy"),
    (307, "TemporaryRedirect", "Temporary Redirect"),
    (308, "PermanentRedirect", "Permanent Redirect"),
    (400, "BadRequest", "Bad Request"),
    (401, "Unauthorized", "Unauthorized"),
    (402, "PaymentRequired", "Payment Required"),
    (403, "Forbidden", "Forbidden"),
    (404, "NotFound", "Not Found"),
    (405, "MethodNotAllowed", "Method Not Allowed"),
    (406, "NotAcceptable", "Not Acceptable"),
    (407, "ProxyAuthenticationRequired", "Proxy Authentication Required"),
    (408, "RequestTimeout", "Request Timeout"),
    (409, "Conflict", "Conflict"),
    (410, "Gone", "Gone"),
    (411, "LengthRequired", "Length Required"),
    (412, "PreconditionFailed", "Precondition Failed"),
    (413, "PayloadTooLarge", "Payload Too Large"),
    (414, "UriTooLong", "URI Too Long"),
    (415, "UnsupportedMediaType", "Unsupported Media Type"),
    (416, "RangeNotSatisfiable", "Range Not Satisfiable"),
    (417, "ExceptionFailed", "Expectation Failed"),
    (418, "ImATeapot", "I'm a teapot"),
    (421, "MisdirectedRequest", "Misdirected Request"),
    (422, "UnprocessableEntity", "Unprocessable Entity"),
    (423, "Locked", "Locked"),
    (424, "FailedDependency", "Failed Dependency"),
    (426, "UpgradeRequired", "Upgrade Required"),
    (451, "UnavailableForLegalReasons", "Unavailable For Legal Reasons"),
    (500, "InternalServerError", "Internal Server Error"),
    (501, "NotImplemented", "Not Implemented"),
    (502, "BadGateway", "Bad Gateway"),
    (503, "ServiceUnavailable", "Service Unavailable"),
    (504, "GatewayTimeout", "Gateway Timeout"),
    (505, "HttpVersionNotSupported", "HTTP Version Not Supported"),
    (506, "VariantAlsoNegotiates", "Variant Also Negotiates"),
    (507, "InsufficientStorage", "Insufficient Storage"),
    (508, "LoopDetected", "Loop Detected"),
    (509, "BandwidthLimitExceeded", "Bandwidth Limit Exceeded"),
    (510, "NotExtended", "Not Extended"),
];
pub const NAMES: &[&str] = &[
    "Continue", "SwitchingProtocols", "Processing", "Ok", "Created", "Accepted",
    "NonAuthoritativeInformation", "NoContent", "ResetContent", "PartialContent", "MultiStatus",
    "AlreadyReported", "ImUsed", "MultipleChoices", "MovedPermanently", "Found", "SeeOther",
    "NotModified", "UseProxy", "TemporaryRedirect", "PermanentRedirect", "BadRequest",
    "Unauthorized", "PaymentRequired", "Forbidden", "NotFound", "MethodNotAllowed",
    "NotAcceptable", "ProxyAuthenticationRequired", "RequestTimeout", "Conflict", "Gone",
    "LengthRequired", "PreconditionFailed", "PayloadTooLarge", "UriTooLong",
    "UnsupportedMediaType", "RangeNotSatisfiable", "ExceptionFailed", "ImATeapot",
    "MisdirectedRequest", "UnprocessableEntity", "Locked", "FailedDependency", "UpgradeRequired",
    "UnavailableForLegalReasons", "InternalServerError", "NotImplemented", "BadGateway",
    "ServiceUnavailable", "GatewayTimeout", "HttpVersionNotSupported", "VariantAlsoNegotiates",
    "InsufficientStorage", "LoopDetected", "BandwidthLimitExceeded", "NotExtended",
];
pub fn name_of(code: u16) -> Option<&'static str> {
    TABLE.iter().find(|t| t.0 == code).map(|t| t.1)
}

/// Any known final status.
pub fn any_final(r: &mut crate::rng::Rng) -> u16 {
    if r.chance(1, 3) {
        return *r.pick(&[200u16, 204, 205, 206, 304, 404, 500]);
    }
    let f: Vec<u16> = TABLE.iter().map(|t| t.0).filter(|c| *c >= 200).collect();
    *r.pick(&f)
}
