//! Stand-in for crossbeam's scoped threads: closures run at once, in spawn order.
pub mod thread {
    pub type Result<T> = core::result::Result<T, Box<dyn core::any::Any + Send + 'static>>;
    pub struct Scope(());
    pub struct ScopedJoinHandle<T>(T);
    impl<T> ScopedJoinHandle<T> {
        pub fn join(self) -> Result<T> {
            Ok(self.0)
        }
    }
    impl Scope {
        pub fn spawn<F: FnOnce(&Scope) -> T, T>(&self, f: F) -> ScopedJoinHandle<T> {
            ScopedJoinHandle(f(self))
        }
    }
    pub fn scope<F: FnOnce(&Scope) -> R, R>(f: F) -> Result<R> {
        Ok(f(&Scope(())))
    }
}
