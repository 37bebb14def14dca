//! HTTP responses, without a server around them.
use crate::util::*;
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{ACCEPT_RANGES, CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, HeaderName, HeaderValue, RANGE};
use actix_web::{HttpResponse, Responder};
use bytes::Bytes;
use serde_json::{Value, json};
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use zippity::{ActixWebAdapter, EntryData};

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A response as it is, or taken apart as soon as its body is wanted
pub enum Response {
    Whole(HttpResponse),
    Parts(#[allow(dead_code)] HttpResponse<()>, BoxBody),
    Failed(#[allow(dead_code)] HttpResponse<()>, #[allow(dead_code)] BoxBody),
    Changing,
}

impl Response {
    pub fn failed(&self) -> bool {
        matches!(self, Response::Failed(..))
    }
}

/// Answers a request. Returns the response and its event.
pub fn respond<D: EntryData + 'static>(a: ActixWebAdapter<D>, hdr: Option<&str>) -> (Response, Value) {
    let mut req = actix_web::test::TestRequest::get();
    if let Some(h) = hdr {
        req = req.insert_header((RANGE, HeaderValue::from_bytes(&unhex(h)).expect("HARNESS: header value")));
    }
    let req = req.to_http_request();
    let r = a.respond_to(&req);
    let get = |n: HeaderName| -> Vec<String> { r.headers().get_all(n).map(|v| hex(v.as_bytes())).collect() };
    let bs: Value = match r.body().size() {
        BodySize::None => json!([]),
        BodySize::Sized(n) => json!([limbs(n)]),
        BodySize::Stream => json!(["stream"]),
    };
    let v = json!({"op": "respond", "has": hdr.is_some(), "hdr": hdr.unwrap_or(""), "status": r.status().as_u16(),
        "cl": get(CONTENT_LENGTH), "cr": get(CONTENT_RANGE), "ct": get(CONTENT_TYPE), "ar": get(ACCEPT_RANGES), "bs": bs});
    (Response::Whole(r), v)
}

pub fn poll_body(r: &mut Response, cx: &mut Context<'_>) -> Poll<Option<io::Result<Bytes>>> {
    *r = match std::mem::replace(r, Response::Changing) {
        Response::Whole(w) => {
            let (head, body) = w.into_parts();
            Response::Parts(head, body)
        }
        x => x,
    };
    let Response::Parts(_, body) = r else { panic!("HARNESS: no body") };
    let res = Pin::new(body).poll_next(cx).map(|o| {
        o.map(|r| {
            r.map_err(|e| match e.downcast::<io::Error>() {
                Ok(e) => *e,
                Err(e) => io::Error::other(e.to_string()),
            })
        })
    });
    if matches!(res, Poll::Ready(Some(Err(_)))) {
        *r = match std::mem::replace(r, Response::Changing) {
            Response::Parts(head, body) => Response::Failed(head, body),
            x => x,
        };
    }
    res
}
