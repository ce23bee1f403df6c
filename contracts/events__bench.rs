use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![]
}

pub(crate) fn payload(e: EventDispatch) -> (EventType, EventPayload) {
    (e.type_, e.payload)
}

pub(crate) fn processing(e: EventDispatch) -> AudioProcessingEvent {
    match e.payload {
        EventPayload::AudioProcessing(v) => v,
        _ => panic!("not an audio processing event"),
    }
}
