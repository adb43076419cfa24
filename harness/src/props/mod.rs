use crate::engine::Prop;

pub mod p01_ids;
mod p03_model;
mod p07_builder;
mod p09_json;
mod p12_idl;
pub mod p15_selector;
mod p17_actions;
mod p22_walk;
mod p24_rdf;
pub mod p26_files;
pub mod p27_query;
mod p28_describe;
mod p31_cli;
mod p32_io;
mod p33_values;

pub fn all() -> Vec<&'static Prop> {
    vec![
        &p01_ids::P01,
        &p01_ids::P02,
        &p03_model::P03,
        &p03_model::P04,
        &p03_model::P05,
        &p03_model::P06,
        &p07_builder::P07,
        &p07_builder::P08,
        &p09_json::P09,
        &p09_json::P10,
        &p09_json::P11,
        &p12_idl::P12,
        &p12_idl::P13,
        &p12_idl::P14,
        &p15_selector::P15,
        &p15_selector::P16,
        &p17_actions::P17,
        &p17_actions::P18,
        &p17_actions::P19,
        &p17_actions::P20,
        &p17_actions::P21,
        &p22_walk::P22,
        &p22_walk::P23,
        &p24_rdf::P24,
        &p24_rdf::P25,
        &p26_files::P26,
        &p27_query::P27,
        &p28_describe::P28,
        &p28_describe::P29,
        &p28_describe::P30,
        &p31_cli::P31,
        &p32_io::P32,
        &p33_values::P33,
    ]
}
