pub(crate) fn contracts() -> Vec<symrt::Contract> {
    vec![]
}

/// the render thread of an offline context, to be called like that of an audio device
pub(crate) fn thread(c: &OfflineAudioContext) -> RenderThread {
    c.renderer.lock().unwrap().take().unwrap().renderer
}

/// and its event loop
pub(crate) fn thread_and_events(c: &OfflineAudioContext) -> (RenderThread, EventLoop) {
    let r = c.renderer.lock().unwrap().take().unwrap();
    (r.renderer, r.event_loop)
}
