//! Stand-in over the standard library.
#[derive(Default, Debug)] pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(std::sync::RwLock::new(t)) } pub fn read(&self) -> std::sync::RwLockReadGuard<T> { self.0.read().unwrap_or_else(|e| e.into_inner()) } pub fn write(&self) -> std::sync::RwLockWriteGuard<T> { self.0.write().unwrap_or_else(|e| e.into_inner()) } }
pub type Mutex<T> = std::sync::Mutex<T>;
