//! Offline stand-in for `pasta_curves`: the real Pasta fields and curves (Montgomery arithmetic,
//! Jacobian points). `hash_to_curve` is a deterministic try-and-increment, not simplified SWU: only
//! the independence of the generators matters to the repository.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
pub use group;
pub mod arithmetic;
#[macro_use]
mod field;
#[macro_use]
mod curve;

pub mod pallas {
    pub type Base = crate::Fp;
    pub type Scalar = crate::Fq;
    pub type Point = crate::Ep;
    pub type Affine = crate::EpAffine;
}
pub mod vesta {
    pub type Base = crate::Fq;
    pub type Scalar = crate::Fp;
    pub type Point = crate::Eq;
    pub type Affine = crate::EqAffine;
}

pasta_field!(
    Fp, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000], 0x992d30ecffffffff,
    [0x8c78ecb30000000f, 0xd7d30dbd8b0de0e7, 0x7797a99bc3c95d18, 0x096d41af7b9cb714],
    [0xf185a5993a9e10f9, 0xf6a68f3b6ac5b1d1, 0xdf8d1014353fd42c, 0x2ae309222d2d9910],
    [0xbdad6fabd87ea32f, 0xea322bf2b7bb7584, 0x362120830561f81a, 0x2bce74deac30ebda],
    [0xf0b87c7db2ce91f6, 0x84a0a1d8859f066f, 0xb4ed8e647196dad1, 0x2cd5282c53116b5c],
    [0xcc96987680000001, 0x11234c7e04a67c8d, 0, 0x2000000000000000],
    [0x6a6ccd20dd7b9ba2, 0xf5e4f3f13eee5636, 0xbd455b7112a5049d, 0x0a757d0f0006ab6c],
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71],
    [0x04a67c8dcc969876, 0x0000000011234c7e, 0, 0x0000000020000000]
);
pasta_field!(
    Fq, "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000], 0x8c46eb20ffffffff,
    [0xfc9678ff0000000f, 0x67bb433d891a16e3, 0x7fae231004ccf590, 0x096d41af7ccfdaa9],
    [0x008b421c249dae4c, 0xe13bda50dba41326, 0x88fececb8e15cb63, 0x07dd97a06e6792c8],
    [0xa70e2c1102b6d05f, 0x9bb97ea3c106f049, 0x9e5c4dfd492ae26e, 0x2de6a9b8746d3f58],
    [0x57eecda0a84b6836, 0x4ad38b9084b8a80c, 0xf4c8f353124086c1, 0x2235e1a7415bf936],
    [0xc623759080000001, 0x11234c7e04ca546e, 0, 0x2000000000000000],
    [0x8494392472d1683c, 0xe3ac3376541d1140, 0x06f0a88e7f7949f8, 0x2237d54423724166],
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e],
    [0x04ca546ec6237590, 0x0000000011234c7e, 0, 0x0000000020000000]
);
curve!(Ep, EpAffine, Fp, Fq, "pallas", 5u64, (-<Fp as ff::Field>::ONE, Fp::from_raw([2, 0, 0, 0])));
curve!(Eq, EqAffine, Fq, Fp, "vesta", 5u64, (-<Fq as ff::Field>::ONE, Fq::from_raw([2, 0, 0, 0])));
