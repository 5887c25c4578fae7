//! Stand-in for reqwest 0.9's blocking client: the transport seam of the simulator.
//! The harness installs a `TRANSPORT` that decides, per request and per read, what the network does.
use std::fmt;
use std::io::{self, Read, Write};
use std::sync::OnceLock;

/// What a request results in. `Err` models a connection that could not be made.
pub type Transport = fn(&str) -> std::result::Result<(u16, Box<dyn Read + Send>), String>;
pub static TRANSPORT: OnceLock<Transport> = OnceLock::new();

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub struct ParseError(String);
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Url(String);
impl Url {
    pub fn parse(s: &str) -> std::result::Result<Url, ParseError> {
        if s.starts_with("http://") || s.starts_with("https://") { Ok(Url(s.into())) } else { Err(ParseError("relative URL without a base".into())) }
    }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl fmt::Display for Url { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { Ok(self) } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error(e.0)) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { Url::parse(&self).map_err(|e| Error(e.0)) } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error(e.0)) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn as_str(&self) -> &'static str { Box::leak(self.0.to_string().into_boxed_str()) }
    pub fn is_informational(&self) -> bool { self.0 / 100 == 1 }
    pub fn is_success(&self) -> bool { self.0 / 100 == 2 }
    pub fn is_redirection(&self) -> bool { self.0 / 100 == 3 }
    pub fn is_client_error(&self) -> bool { self.0 / 100 == 4 }
    pub fn is_server_error(&self) -> bool { self.0 / 100 == 5 }
}
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }

#[derive(Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Client { Client }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { RequestBuilder(u.into_url()) }
    pub fn execute(&self, r: Request) -> Result<Response> { r.0.send() }
}
pub struct RequestBuilder(Result<Url>);
pub struct Request(RequestBuilder);
impl RequestBuilder {
    pub fn send(self) -> Result<Response> {
        let u = self.0?;
        let t = TRANSPORT.get().ok_or_else(|| Error("no transport".into()))?;
        let (s, b) = t(u.as_str()).map_err(Error)?;
        Ok(Response { status: StatusCode(s), body: b, url: u })
    }
    pub fn build(self) -> Result<Request> { Ok(Request(self)) }
}
pub fn get<U: IntoUrl>(u: U) -> Result<Response> { Client::new().get(u).send() }

pub struct Response { status: StatusCode, body: Box<dyn Read + Send>, url: Url }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn url(&self) -> &Url { &self.url }
    pub fn text(&mut self) -> Result<String> {
        let mut v = vec![];
        self.body.read_to_end(&mut v).map_err(|e| Error(e.to_string()))?;
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn copy_to<W: ?Sized + Write>(&mut self, w: &mut W) -> Result<u64> { io::copy(&mut self.body, w).map_err(|e| Error(e.to_string())) }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.0 >= 400 { Err(Error(format!("status {}", self.status))) } else { Ok(self) }
    }
}
impl Read for Response { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.body.read(b) } }
