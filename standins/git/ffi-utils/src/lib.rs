//! Stand-in for ffi-utils (snips-utils-rs, a git dependency which is not available offline).
#![allow(non_camel_case_types)]
use std::ffi::{CStr, CString};

#[doc(hidden)]
pub use failure;
#[doc(hidden)]
pub use libc;

/// Used as a return type of functions that can encounter errors
#[repr(C)]
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum SNIPS_RESULT {
    /// The function returned successfully
    SNIPS_RESULT_OK = 0,
    /// The function encountered an error, you can retrieve it using the dedicated function
    SNIPS_RESULT_KO = 1,
}

/// An array of strings
#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self, failure::Error>;
    unsafe fn drop_raw_pointer(input: *const T) -> Result<(), failure::Error> {
        Self::from_raw_pointer(input).map(|_| ())
    }
}

impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T {
        Box::into_raw(Box::new(self)) as *const T
    }
    unsafe fn from_raw_pointer(input: *const T) -> Result<T, failure::Error> {
        if input.is_null() {
            failure::bail!("could not take raw pointer, unexpected null pointer");
        }
        Ok(*Box::from_raw(input as *mut T))
    }
}

impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        self.into_raw() as *const _
    }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<CString, failure::Error> {
        if input.is_null() {
            failure::bail!("could not take raw pointer, unexpected null pointer");
        }
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
}

pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, failure::Error>;
}

impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a T, failure::Error> {
        input
            .as_ref()
            .ok_or_else(|| failure::format_err!("could not borrow, unexpected null pointer"))
    }
}

impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(input: *const libc::c_char) -> Result<&'a CStr, failure::Error> {
        if input.is_null() {
            failure::bail!("could not borrow, unexpected null pointer");
        }
        Ok(CStr::from_ptr(input))
    }
}

pub fn convert_to_c_string_result(s: String) -> Result<*const libc::c_char, failure::Error> {
    Ok(CString::new(s)?.into_raw_pointer())
}

pub fn point_to_string(
    pointer: *mut *const libc::c_char,
    string: String,
) -> Result<(), failure::Error> {
    let c_string: CString = CString::new(string)?;
    unsafe { *pointer = c_string.into_raw() as *const libc::c_char };
    Ok(())
}

pub trait ErrorExt {
    fn pretty(&self) -> String;
}

impl ErrorExt for failure::Error {
    fn pretty(&self) -> String {
        let mut result = String::from("Error:");
        for cause in self.iter_chain() {
            result.push_str("\n -> ");
            result.push_str(&cause.to_string());
        }
        result
    }
}

#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {{
        unsafe { <std::ffi::CStr as $crate::RawBorrow<$crate::libc::c_char>>::raw_borrow($pointer) }?
            .to_str()?
            .to_string()
    }};
}

#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                let message = $crate::ErrorExt::pretty(&e);
                LAST_ERROR.with(|p| *p.borrow_mut() = Some(message));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}

#[macro_export]
macro_rules! generate_error_handling {
    ($get_error_symbol:ident) => {
        thread_local! {
            pub static LAST_ERROR: std::cell::RefCell<Option<String>> =
                std::cell::RefCell::new(None);
        }

        /// Used to retrieve the last error that happened in this thread. A function encountered
        /// an error if its return type is of type SNIPS_RESULT and it returned SNIPS_RESULT_KO
        #[no_mangle]
        pub extern "C" fn $get_error_symbol(
            error: *mut *const $crate::libc::c_char,
        ) -> $crate::SNIPS_RESULT {
            fn get_last_error(
                error: *mut *const $crate::libc::c_char,
            ) -> std::result::Result<(), $crate::failure::Error> {
                let message = LAST_ERROR
                    .with(|p| p.borrow().clone())
                    .unwrap_or_else(|| "No error message".to_string())
                    .replace('\0', " ");
                $crate::point_to_string(error, message)
            }
            wrap!(get_last_error(error))
        }
    };
}
