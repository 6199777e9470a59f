//! What the bindings use of wasm-bindgen, without JavaScript: a JsValue keeps the Rust value
//! it was made of.
use std::any::Any;
use std::rc::Rc;

pub use wasm_bindgen_stub_macro::wasm_bindgen;

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    Error(String),
    Object(Rc<dyn Any>),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Text(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Text(_))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn object<T: 'static>(x: T) -> JsValue {
        JsValue::Object(Rc::new(x))
    }
    pub fn get<T: 'static>(&self) -> Option<&T> {
        match self {
            JsValue::Object(o) => o.downcast_ref(),
            _ => None,
        }
    }
}
impl core::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("JsValue")
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Text(s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => { $(impl From<$t> for JsValue {
        fn from(n: $t) -> JsValue {
            JsValue::Number(n as f64)
        }
    })* };
}
numbers!(i8 u8 i16 u16 i32 u32 f32 f64);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        match x {
            Some(x) => x.into(),
            None => JsValue::Undefined,
        }
    }
}

/// a JavaScript error to be thrown
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::Error(e.0)
    }
}

pub trait JsCast {}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: core::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

pub mod prelude {
    pub use super::wasm_bindgen;
    pub use super::{JsCast, JsError, JsValue, UnwrapThrowExt};
}
