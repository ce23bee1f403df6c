pub(crate) fn contracts() -> Vec<symrt::Contract> {
    vec![]
}

/// id of a parameter made up by `vc_graph__bench::Call`
pub(crate) fn param_id(n: u64) -> AudioParamId {
    AudioParamId(n)
}
