/// denormals do not exist over the reals
pub unsafe fn no_denormals<R>(f: impl FnOnce() -> R) -> R {
    f()
}
