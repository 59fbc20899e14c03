//! Stand-in for `environmental` (trait-object form): a thread-local stack of references.
#[macro_export]
macro_rules! environmental {
	($name:ident : trait $t:ident) => {
		#[allow(non_camel_case_types, dead_code)]
		struct $name;
		impl $name {
			fn stack<R>(f: impl FnOnce(&mut ::std::vec::Vec<*mut (dyn $t + 'static)>) -> R) -> R {
				::std::thread_local! { static S: ::std::cell::RefCell<::std::vec::Vec<*mut (dyn $t + 'static)>> = ::std::cell::RefCell::new(::std::vec::Vec::new()); }
				S.with(|s| f(&mut s.borrow_mut()))
			}
			pub fn using<R, F: FnOnce() -> R>(p: &mut (dyn $t + 'static), f: F) -> R {
				struct Pop; impl Drop for Pop { fn drop(&mut self) { $name::stack(|s| { s.pop(); }) } }
				$name::stack(|s| s.push(p as *mut _));
				let _pop = Pop;
				f()
			}
			pub fn with<R, F: FnOnce(&mut (dyn $t + 'static)) -> R>(f: F) -> Option<R> {
				let p = $name::stack(|s| s.last().copied());
				p.map(|p| unsafe { f(&mut *p) })
			}
		}
	};
}
