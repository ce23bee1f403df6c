pub(crate) use super::offline::vc_offline__bench::*;

pub(crate) fn contracts() -> Vec<symrt::Contract> {
    vec![]
}
