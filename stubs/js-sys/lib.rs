//! What the bindings use of JavaScript's own objects: Array and Error.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Clone, Debug, Default)]
pub struct Array(Rc<RefCell<Vec<JsValue>>>);
impl Array {
    pub fn new() -> Array {
        Array::default()
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(Rc::new(RefCell::new(vec![JsValue::Undefined; n as usize])))
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        self.0.borrow_mut().push(x.clone());
        self.length()
    }
    pub fn get(&self, k: u32) -> JsValue {
        self.0.borrow().get(k as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn at(&self, k: i32) -> JsValue {
        let k = if k < 0 { k as i64 + self.length() as i64 } else { k as i64 };
        self.0.borrow().get(k as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn set(&self, k: u32, x: JsValue) {
        let mut v = self.0.borrow_mut();
        while v.len() <= k as usize {
            v.push(JsValue::Undefined);
        }
        v[k as usize] = x;
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.borrow().clone()
    }
}
impl<A: Into<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(x: T) -> Array {
        Array(Rc::new(RefCell::new(x.into_iter().map(Into::into).collect())))
    }
}
impl<A: Into<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, x: T) {
        self.0.borrow_mut().extend(x.into_iter().map(Into::into));
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        JsValue::object(a)
    }
}

#[derive(Clone, Debug)]
pub struct Error(String);
impl Error {
    pub fn new(s: &str) -> Error {
        Error(s.to_string())
    }
    pub fn message(&self) -> String {
        self.0.clone()
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::Error(e.0)
    }
}
