// Stand-ins for the http request types.

#[verifier::external_body]
pub struct Method { x: u8 }
impl Clone for Method { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Uri { x: u8 }
impl Clone for Uri { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct HeaderMap { x: u8 }
impl Clone for HeaderMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct HttpError { x: u8 }
/// `Method::default`, `Uri::default`, an empty map
pub uninterp spec fn method_get() -> Method;
pub uninterp spec fn uri_root() -> Uri;
pub uninterp spec fn no_headers() -> HeaderMap;
impl Method {
    #[verifier::external_body]
    pub fn default() -> (r: Method) ensures r == method_get() { unimplemented!() }
}
impl Uri {
    #[verifier::external_body]
    pub fn default() -> (r: Uri) ensures r == uri_root() { unimplemented!() }
}
impl HeaderMap {
    #[verifier::external_body]
    pub fn new() -> (r: HeaderMap) ensures r == no_headers() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: HeaderMap) ensures r == no_headers() { unimplemented!() }
}
/// what a builder was told, absent after an error
pub ghost struct Head { pub method: Method, pub uri: Uri, pub headers: HeaderMap }
#[verifier::external_body]
pub struct Builder { x: u8 }
impl Builder {
    pub uninterp spec fn head(&self) -> Option<Head>;
    #[verifier::external_body]
    pub fn body<T>(self, t: T) -> (r: Result<Request<T>, HttpError>)
        ensures match self.head() {
            Some(h) => r matches Ok(q) && q.head() == h && q.load() == t,
            None => r is Err,
        } { unimplemented!() }
    /// absent after an error
    #[verifier::external_body]
    pub fn method_ref(&self) -> (r: Option<&Method>)
        ensures match self.head() { Some(h) => r matches Some(m) && *m == h.method, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn uri_ref(&self) -> (r: Option<&Uri>)
        ensures match self.head() { Some(h) => r matches Some(m) && *m == h.uri, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn headers_ref(&self) -> (r: Option<&HeaderMap>)
        ensures match self.head() { Some(h) => r matches Some(m) && *m == h.headers, None => r is None } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Request<T> { x: Vec<T> }
impl<T> Request<T> {
    pub uninterp spec fn head(&self) -> Head;
    pub uninterp spec fn load(&self) -> T;
    #[verifier::external_body]
    pub fn method(&self) -> (r: &Method) ensures *r == self.head().method { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &Uri) ensures *r == self.head().uri { unimplemented!() }
    #[verifier::external_body]
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.head().headers { unimplemented!() }
    #[verifier::external_body]
    pub fn body(&self) -> (r: &T) ensures *r == self.load() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_body(self) -> (r: T) ensures r == self.load() { unimplemented!() }
}
