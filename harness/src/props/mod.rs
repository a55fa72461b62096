use crate::def::Def;

mod capi;
mod concurrency;
mod handshake;
mod interrupted;
mod label;
pub mod leaks;
mod malformed;
mod node;
pub mod objects;
mod oversize;
mod payload;
mod registry;
mod routing;
mod scarce;
mod sharing;
mod survival;
mod timing;

pub fn all() -> Vec<Def> {
    vec![
        Def::of::<label::Algebra>(),
        Def::of::<label::Sets>(),
        Def::of::<routing::Multicast>(),
        Def::of::<concurrency::Order>(),
        Def::of::<payload::Payload>(),
        Def::of::<payload::Types>(),
        Def::of::<payload::Codec>(),
        Def::of::<objects::Objects>(),
        Def::of::<objects::Regions>(),
        Def::of::<objects::RefCount>(),
        Def::of::<routing::Unicast>(),
        Def::of::<handshake::Admission>(),
        Def::of::<handshake::Isolation>(),
        Def::of::<registry::Allocation>(),
        Def::of::<registry::Callbacks>(),
        Def::of::<routing::Ttl>(),
        Def::of::<timing::Limits>(),
        Def::of::<survival::Survival>(),
        Def::of::<malformed::Malformed>(),
        Def::of::<routing::Departure>(),
        Def::of::<capi::Capi>(),
        Def::of::<node::Node>(),
        Def::of::<interrupted::Interrupted>(),
        Def::of::<oversize::Oversize>(),
        Def::of::<leaks::Leaks>(),
        Def::of::<scarce::Scarce>(),
    ]
}
